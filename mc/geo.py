"""Independent exact 2D oracle: slab decomposition of the plane by a set of
polygon edges into trapezoids.  Uses nothing from plycutter."""
from gmpy2 import mpq as Q


def pt(p):
    return (Q(p[0]), Q(p[1]))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def edges(ring):
    n = len(ring)
    return [(ring[i], ring[(i + 1) % n]) for i in range(n)]


def shoelace(ring):
    """Twice... no: the signed area, counterclockwise positive."""
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in edges(ring)) / Q(2)


def even_odd(ring, p):
    """p must not be on the ring."""
    c = False
    for a, b in edges(ring):
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
            if x > p[0]:
                c = not c
    return c


def on_segment(a, b, p):
    if cross(a, b, p) != 0:
        return False
    return (min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and
            min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def seg_cross(a, b):
    """The crossing point of two non-parallel segments or None."""
    (p, q), (r, s) = a, b
    d = (q[0] - p[0]) * (s[1] - r[1]) - (q[1] - p[1]) * (s[0] - r[0])
    if d == 0:
        return None
    t = ((r[0] - p[0]) * (s[1] - r[1]) - (r[1] - p[1]) * (s[0] - r[0])) / d
    u = ((r[0] - p[0]) * (q[1] - p[1]) - (r[1] - p[1]) * (q[0] - p[0])) / d
    if 0 <= t <= 1 and 0 <= u <= 1:
        return (p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]))
    return None


class Decomp:
    """Trapezoids of the arrangement of some simple polygons (rings).

    atoms: classes of trapezoids with the same membership signature.
    """

    def __init__(self, rings, frame=None):
        self.rings = [[pt(p) for p in r] for r in rings]
        all_edges = [e for r in self.rings for e in edges(r)]
        self.edges = all_edges
        if frame is not None:
            self.frame = [pt(p) for p in frame]
            all_edges = all_edges + edges(self.frame)
        uniq = sorted(set(tuple(sorted(e)) for e in all_edges))
        verts = set(p for e in uniq for p in e)
        for i, e in enumerate(uniq):
            for f in uniq[i + 1:]:
                c = seg_cross(e, f)
                if c is not None:
                    verts.add(c)
        self.uniq_edges = uniq
        self.vertices = verts
        xs = sorted(set(v[0] for v in verts))
        self.traps = []    # (quad, sample, area, signature)
        for xa, xb in zip(xs, xs[1:]):
            act = set()
            for (p, q) in uniq:
                if p[0] <= xa and q[0] >= xb:
                    m = (q[1] - p[1]) / (q[0] - p[0])
                    act.add((p[1] + m * (xa - p[0]), p[1] + m * (xb - p[0])))
            act = sorted(act, key=lambda y: y[0] + y[1])
            for (l0, l1), (h0, h1) in zip(act, act[1:]):
                assert l0 <= h0 and l1 <= h1
                quad = []
                for v in ((xa, l0), (xb, l1), (xb, h1), (xa, h0)):
                    if v not in quad:
                        quad.append(v)
                xm = (xa + xb) / 2
                sample = (xm, (l0 + l1 + h0 + h1) / 4)
                area = (h0 - l0 + h1 - l1) / 2 * (xb - xa)
                sig = 0
                for k, r in enumerate(self.rings):
                    if even_odd(r, sample):
                        sig |= 1 << k
                self.traps.append((quad, sample, area, sig))
        sigs = sorted(set(t[3] for t in self.traps) - {0})
        self.sigs = sigs
        self.atom_of = {s: i for i, s in enumerate(sigs)}
        self.n = len(sigs)
        self.atom_area = [Q(0)] * self.n
        self.atom_traps = [[] for _ in sigs]
        self.outer_traps = []
        for i, t in enumerate(self.traps):
            if t[3]:
                a = self.atom_of[t[3]]
                self.atom_area[a] += t[2]
                self.atom_traps[a].append(i)
            else:
                self.outer_traps.append(i)
        self.full = (1 << self.n) - 1
        vx = [v[0] for v in verts]
        vy = [v[1] for v in verts]
        self.far = [(min(vx) - 1, min(vy) - 1), (max(vx) + 1, min(vy) - 1),
                    (max(vx) + 1, max(vy) + 1), (min(vx) - 1, max(vy) + 1),
                    ((min(vx) + max(vx)) / 2, max(vy) + 1),
                    (max(vx) + 1, (min(vy) + max(vy)) / 2)]

    def gen_mask(self, k):
        """Atoms making up generator k."""
        return sum(1 << i for i, s in enumerate(self.sigs) if s >> k & 1)

    def area(self, mask):
        return sum((self.atom_area[i] for i in range(self.n)
                    if mask >> i & 1), Q(0))

    def trap_in(self, i, mask):
        s = self.traps[i][3]
        return bool(s) and bool(mask >> self.atom_of[s] & 1)

    def mask_of(self, locate):
        """Membership of every trapezoid by locate(sample) -> 1/-1/0.
        Returns (mask, None) or (None, problem)."""
        mask = 0
        for a in range(self.n):
            locs = [locate(self.traps[i][1]) for i in self.atom_traps[a]]
            if any(v != locs[0] for v in locs):
                return None, 'atom %d located inconsistently %s' % (a, locs)
            if locs[0] == 1:
                mask |= 1 << a
            elif locs[0] != -1:
                return None, 'interior point %s located %s' % (
                    fl(self.traps[self.atom_traps[a][0]][1]), locs[0])
        for i in self.outer_traps:
            v = locate(self.traps[i][1])
            if v != -1:
                return None, 'outside point %s located %s' % (
                    fl(self.traps[i][1]), v)
        for p in self.far:
            v = locate(p)
            if v != -1:
                return None, 'far outside point %s located %s' % (fl(p), v)
        return mask, None

    def component_count(self, mask):
        return len(self.components(mask))

    def components(self, mask):
        """Edge-connected components: list of sets of trapezoid ids."""
        ids = [i for i in range(len(self.traps)) if self.trap_in(i, mask)]
        parent = {i: i for i in ids}

        def find(i):
            while parent[i] != i:
                parent[i] = parent[parent[i]]
                i = parent[i]
            return i
        for i, j in self.adjacency():
            if i in parent and j in parent:
                parent[find(i)] = find(j)
        comps = {}
        for i in ids:
            comps.setdefault(find(i), set()).add(i)
        return list(comps.values())

    def adjacency(self):
        if not hasattr(self, '_adj'):
            adj = []
            n = len(self.traps)
            for i in range(n):
                ei = [tuple(sorted(e)) for e in edges(self.traps[i][0])]
                for j in range(i + 1, n):
                    hit = False
                    for f in edges(self.traps[j][0]):
                        f = tuple(sorted(f))
                        for e in ei:
                            if cross(e[0], e[1], f[0]) == 0 and \
                                    cross(e[0], e[1], f[1]) == 0 and \
                                    max(e[0], f[0]) < min(e[1], f[1]):
                                hit = True
                    if hit:
                        adj.append((i, j))
            self._adj = adj
        return self._adj


def fl(p):
    return tuple(float(c) for c in p)


def canon_ring(ring):
    """Rotation-independent key of a vertex ring (orientation kept)."""
    ring = [pt(p) for p in ring]
    k = min(range(len(ring)), key=lambda i: (ring[i], ring[(i + 1) %
                                                           len(ring)]))
    return tuple(ring[k:] + ring[:k])


def canon(g):
    """Representation key of a Geom2D."""
    return tuple(sorted(
        (canon_ring(p.exterior()),
         tuple(sorted(canon_ring(h) for h in p.holes())))
        for p in g.polygons()))


def rings_of(g):
    out = []
    for p in g.polygons():
        out.append([pt(v) for v in p.exterior()])
        for h in p.holes():
            out.append([pt(v) for v in h])
    return out


def ring_problem(dec, g):
    """Every boundary edge must run along input edges, between vertices of
    the arrangement (then membership is constant on each trapezoid, and the
    samples decide membership everywhere)."""
    vs = dec.vertices
    for r in rings_of(g):
        for a, b in edges(r):
            if a not in vs or b not in vs:
                return 'boundary vertex %s is no vertex of the inputs' % (
                    fl(a if a not in vs else b),)
            if not any(cross(e[0], e[1], a) == 0 and cross(e[0], e[1], b) == 0
                       for e in dec.uniq_edges):
                return 'boundary edge %s-%s is on no input edge' % (
                    fl(a), fl(b))
    return None


def compare(dec, g, mask):
    """Exact equality of a Geom2D with the point set `mask`; message/None."""
    m, prob = dec.mask_of(g.locate)
    if prob:
        return prob
    if m != mask:
        d = m ^ mask
        a = (d & -d).bit_length() - 1
        return ('wrong point set: %s %s' % (
            fl(dec.traps[dec.atom_traps[a][0]][1]),
            'included but should not be' if m >> a & 1
            else 'missing'))
    ar = g.area()
    if ar != dec.area(mask):
        return 'area %s, expected %s' % (ar, dec.area(mask))
    if bool(g.is_empty()) != (mask == 0):
        return 'is_empty() is %s for a set of area %s' % (
            g.is_empty(), dec.area(mask))
    return ring_problem(dec, g)


def split_edges(dec, rings):
    """Boundary edges cut at every arrangement vertex lying on them."""
    out = []
    vs = sorted(dec.vertices)
    for r in rings:
        for a, b in edges(r):
            on = [v for v in vs if on_segment(a, b, v)]
            if a not in on:
                on.append(a)
            if b not in on:
                on.append(b)
            on.sort(key=lambda v: (v[0] - a[0]) ** 2 + (v[1] - a[1]) ** 2)
            out.extend(zip(on, on[1:]))
    return out


def regular_problem(dec, g, mask):
    """Is g a regularised, minimal description of the point set `mask`?

    Decided from exterior()/holes() rings only, by the even-odd rule of this
    module, then cross-checked with locate()."""
    rings = rings_of(g)
    for r in rings:
        if len(r) < 3:
            return 'ring with %d vertices' % len(r)
        if any(a == b for a, b in edges(r)):
            return 'ring repeats vertex'
        if shoelace(r) == 0:
            return 'ring of zero area'
    sub = split_edges(dec, rings)
    seen = set()
    for e in sub:
        k = tuple(sorted(e))
        if k in seen:
            return 'boundary runs twice along %s-%s (slit or internal edge)' \
                % (fl(k[0]), fl(k[1]))
        seen.add(k)
    pieces = g.polygons()
    comps = dec.components(mask)
    left = {frozenset(c) for c in comps}
    total = Q(0)
    for p in pieces:
        if len(p.polygons()) != 1:
            return 'a piece has %d pieces' % len(p.polygons())
        prs = [[pt(v) for v in p.exterior()]] + \
            [[pt(v) for v in h] for h in p.holes()]
        a = abs(shoelace(prs[0])) - sum((abs(shoelace(h)) for h in prs[1:]),
                                        Q(0))
        if a != p.area():
            return 'piece area %s, its rings say %s' % (p.area(), a)
        total += a
        ids = set()
        for i, t in enumerate(dec.traps):
            inside = sum(even_odd(r, t[1]) for r in prs) % 2 == 1
            if inside:
                ids.add(i)
                if not even_odd(prs[0], t[1]):
                    return 'hole outside the exterior of its piece'
            if inside != (p.locate(t[1]) == 1):
                return 'locate of a piece disagrees with its rings at %s' % (
                    fl(t[1]),)
        if frozenset(ids) not in left:
            return 'a piece is not exactly one connected component'
        left.remove(frozenset(ids))
    if left:
        return '%d pieces for %d connected components' % (len(pieces),
                                                          len(comps))
    if total != g.area() or total != dec.area(mask):
        return 'areas of the pieces do not add up'
    for a, b in sub:
        m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        for q in (a, b, m):
            if g.locate(q) != 0:
                return 'boundary point %s located %s' % (fl(q), g.locate(q))
    onb = {p for e in sub for p in e}
    for v in dec.vertices:
        if v in onb or any(on_segment(a, b, v) for a, b in sub):
            continue
        w = 1 if sum(even_odd(r, v) for r in rings) % 2 else -1
        if g.locate(v) != w:
            return 'vertex %s off the boundary located %s, expected %s' % (
                fl(v), g.locate(v), w)
    return None
