"""Crossing joints: each crossing goes to one sheet, firmly attached."""
import itertools
import json

from gmpy2 import mpq as Q

from .. import core, models

PID = 'C25'
LEVEL = 'model_checking'
CPU_LIMIT = 300
RULE = ('for every corner of a box of panels, panels crossing in the middle '
        'and boxes with several corners (also closer together than a '
        'finger), the build right before the crossings are decided is '
        'taken from the real pipeline; for single crossings, additionally '
        'every subset of the sheets (thorough: of the sides of the joints) '
        'is barred from the crossing, and the stretches next to it are closed (also in part) for every subset of the '
        'joints, corners of it are closed to the sheets, and the propagation rules applied. From each such state the real stage is run once '
        '(transition) and the result compared with a brute-force model of '
        'the crossings: found by rectangle overlap, grouped by union-find, '
        'given to one sheet of largest possible material, closed to all '
        'others, attached, and nothing else touched. Distinct = (model, '
        'closed sides, winner).')
ASSUMPTIONS = ['areas are compared to 1e-3; equal areas may go to either '
               'sheet']

FINS = [((60, 0, 87), (126, 36, 93)), ((90, 0, 57), (96, 36, 123)),
        ((90, 8, 87), (180, 14, 180)), ((90, 18, 87), (180, 24, 180)),
        ((50, 13, 50), (96, 19, 93))]
MODELS = {
    'Tcorner': (6, [((0, 0, 0), (40, 34, 6)), ((0, 0, 0), (40, 6, 30)),
                    ((17, 0, 0), (23, 34, 30))]),
    'Xcorner': (6, [((0, 0, 12), (40, 34, 18)), ((17, 0, 0), (23, 34, 30)),
                    ((0, 14, 0), (40, 20, 30))]),
    'Xedge': (6, [((0, 0, 12), (40, 34, 18)), ((17, 0, 0), (23, 34, 30)),
                  ((0, 0, 0), (40, 6, 30))]),
    'notched': (6, [((0, 6, 0), (40, 34, 6)), ((0, 0, 0), (6, 34, 30)),
                    ((6, 0, 0), (40, 6, 30))]),
    'thin3': (3, models.panel_boxes([0, 2, 4], (30, 27, 24), 3)),
    'thin08': (0.75, models.panel_boxes([0, 2, 4], (20, 18, 16), 0.75)),
    'thick10': (10, models.panel_boxes([0, 2, 4], (40, 36, 32), 10)),
    # one wall above the base, one below: they cross in the base only
    'updown': (6, [((0, 0, 12), (46, 40, 18)), ((17, 0, 12), (23, 40, 34)),
                   ((0, 14, 0), (46, 20, 18))]),
    'updown2': (6, [((0, 0, 12), (60, 50, 18)), ((10, 0, 12), (16, 50, 34)),
                    ((36, 0, 12), (42, 50, 34)), ((0, 8, 0), (60, 14, 18)),
                    ((0, 32, 0), (60, 38, 18))]),
    # two crossing panels with fins at places that overlap in pairs
    'fins2': (6, FINS[:3] + [((0, 12, 0), (96, 18, 93))]),
    'fins3': (6, FINS),
    'near14': (6, models.panel_boxes([0, 2, 4, 5], (40, 34, 14), 6)),
    'near13': (6, models.panel_boxes([0, 2, 3, 4], (40, 13, 30), 6)),
    'near16': (6, models.panel_boxes([0, 2, 4, 5], (40, 34, 16), 6)),
}


def boxes_of(m):
    return MODELS[m] if isinstance(m, str) else (
        6, models.panel_boxes(m, (32, 28, 26), 6))


def corners():
    return [list(c) for c in itertools.product((0, 1), (2, 3), (4, 5))]


def plan(tier):
    out = []
    th = tier == 'thorough'
    for c in corners():
        q = {'[0, 2, 4]': 'sheets', '[1, 2, 5]': 'few'}.get(str(c), 'one')
        out.append((c, 'sheets' if th else q))
    for m in ('Tcorner', 'Xcorner', 'Xedge', 'notched', 'thin3', 'thin08', 'thick10',
              'updown'):
        out.append((m, 'sheets' if th else 'few'))
    for m in ('near14', 'near13', 'near16', 'updown2', 'fins2', 'fins3', 'hex',
              'tri', 'iso', [0, 2, 4, 5], [0, 1, 2, 5]):
        out.append((m, 'one'))
    out += [([0, 2, 3, 4, 5], 'one')]
    for m in ('[0, 2, 4]', 'Xcorner') + (('Tcorner',) if th else ()):
        m = json.loads(m) if m[0] == '[' else m
        out += [(m, 'shave'), (m, 'near' if th else 'near2')]
    if th:
        out += [('oct', 'one'), ('trapeze', 'one'), ([0, 1, 2, 3, 4], 'one'), ([0, 1, 2, 3, 4, 5], 'one'),
                ([0, 2, 4], 'sides'), ('Xcorner', 'sides'),
                ('Tcorner', 'sides')]
    return out


def bounds(tier):
    return dict(models=[[str(m), k] for m, k in plan(tier)],
                all='2^6 sides closed x 2^3 stretches closed',
                some='up to 2 of the 6 sides and 3 stretches closed')


def masks_of(k):
    if k == 'one':
        return [[0, 0]]
    if k == 'shave':
        return [[0, 0, {'shave': list(p)}] for p in
                itertools.permutations(('1/2', '1/4', '3/4'))] + [
            [0, 0, {'shave': list(p)}] for p in
            itertools.product(('0', '1/8'), repeat=3) if set(p) != {'0'}]
    if k in ('near', 'near2'):
        # what is left of the stretches beside the crossing, per joint
        ls = list(itertools.product(('0', '1', '2'), repeat=2))
        if k == 'near':
            return [[0, 0, {'near': [list(a), list(b), list(c)]}]
                    for a in ls for b in ls for c in ls]
        out = []
        for a in ls:
            for pos in range(3):
                for rest in (['0', '0'], ['2', '1']):
                    c = [rest, rest, rest]
                    c[pos] = list(a)
                    if [0, 0, {'near': c}] not in out:
                        out.append([0, 0, {'near': c}])
        return out
    if k == 'sides':
        return [[a, b] for a in range(64) for b in range(8)]
    ms = [[-a, b] for a in range(8) for b in range(8)]
    if k == 'few':
        ms = [m for m in ms
              if bin(m[0]).count('1') + bin(m[1]).count('1') <= 2]
    return ms


CHUNKS = {'one': 1, 'few': 2, 'sheets': 4, 'sides': 24, 'shave': 1,
          'near2': 4, 'near': 27}


def items(tier):
    out = []
    for m, k in plan(tier):
        for i in range(CHUNKS[k]):
            out.append([m, k, i])
    return out


def weight(it):
    if str(it[0]) in models.CUPS:
        return 9
    return len(boxes_of(it[0])[1]) + {'few': 3, 'one': 0}.get(it[1], 5)


def work(item, rec):
    m, k, i = item
    ms = masks_of(k)[i::CHUNKS[k]]
    for x in ms:
        if rec.stop:
            return
        rec.check([m, x])
    rec.count('states', len(ms))


STAGES = ['choose_obviously_irrelevant', 'remove_loose',
          'update_intersection_ok', 'update_sheet_ok',
          'update_intersection_ok', 'remove_loose',
          'update_intersection_ok']
_c = {}


def start(m):
    k = str(m)
    if k in _c:
        return _c[k]
    from plycutter import create_sheetplex, sheetbuild
    import trimesh
    if str(m) in models.CUPS:
        prm = models.params()
        mesh = models.cup_mesh(models.CUPS[m])
    else:
        t, boxes = boxes_of(m)
        prm = models.params(thickness=Q(t))
        vs, fs = models.mesh_data(boxes)
        mesh = trimesh.Trimesh(vertices=vs, faces=fs, process=False)
    sp = create_sheetplex.create_sheetplex(mesh, prm)
    sb = sheetbuild.create_sheetbuild(sp, prm)
    for s in STAGES:
        sb = core.seam('plycutter.heuristics', s)(sb, prm)
    _c[k] = sp, sb, prm, crossings(sp, sb)
    return _c[k]


EPS = Q(1, 100)


def span(side, shp):
    d = [float(v) for v in side.direction]
    o = float(side.origin_offset)
    v = [p[0] * d[0] + p[1] * d[1] - o for p in shp.exterior.coords]
    return min(v), max(v)


def strips(sp, sb):
    out = {}
    for s in sp.intersides():
        ok = sb.interside_ok[s.id]
        out[s.id] = (s, models.to_shapely(s.make_fingers(ok)))
    return out


def pieces(g):
    gs = getattr(g, 'geoms', [g])
    return [p for p in gs if p.geom_type == 'Polygon' and p.area > 1e-3]


def crossings(sp, sb):
    """[{joint: [(lo, hi)..]}] : groups of positions that interfere."""
    st = strips(sp, sb)
    links = []
    for (a, (sa, fa)), (b, (sb_, fb)) in itertools.combinations(
            sorted(st.items()), 2):
        if sa.sheet != sb_.sheet:
            continue
        for p in pieces(fa.intersection(fb)):
            links.append(((sa.intersection,) + span(sa, p),
                          (sb_.intersection,) + span(sb_, p)))
    # the implementation links all overlaps of one pair of joints
    nodes = sorted({n for l in links for n in l})
    par = {n: n for n in nodes}

    def root(n):
        while par[n] != n:
            n = par[n]
        return n
    for a, b in links:
        par[root(a)] = root(b)
    for a, b in itertools.combinations(nodes, 2):
        if a[0] == b[0] and min(a[2], b[2]) - max(a[1], b[1]) > 1e-4:
            par[root(a)] = root(b)
    groups = {}
    for n in nodes:
        groups.setdefault(root(n), []).append(n)
    return [sorted(g) for g in sorted(groups.values())]


def g1(ivs):
    from plycutter.geometry.geom1d import Geom1D
    return Geom1D([[Q(int(round(a * 10**6)), 10**6),
                    Q(int(round(b * 10**6)), 10**6)] for a, b in ivs])


def ranges(group):
    out = {}
    for j, lo, hi in group:
        out.setdefault(j, []).append((lo, hi))
    return {j: g1(v) for j, v in out.items()}


def area_of(sp, sb, rng, sheet):
    g = None
    for s in sp.intersides(sheet):
        if s.intersection in rng:
            f = s.make_fingers(rng[s.intersection] & sb.interside_ok[s.id])
            g = f if g is None else g | f
    return g


def contact(piece, body):
    """How much of the body the piece touches (length, roughly)."""
    return piece.buffer(0.1, join_style=2).intersection(body).area / 0.1


def run_case(case, rec):
    m, mask = case
    more = mask[2] if len(mask) > 2 else {}
    f = core.seam('plycutter.heuristics',
                  'heuristic_multi_inter_single_decisions')
    sp, sb, prm, groups0 = start(m)
    mixed = False
    if mask != [0, 0]:
        if len(groups0) != 1:
            return 'several crossings in a model made with one'
        rng = ranges(groups0[0])
        js = sorted(rng)
        sides = [s for j in js for s in sp.intersections[j].sides]
        sheets = sorted({s.sheet for s in sides})
        if mask[0] > 0:      # bits: sides
            shut = [s for n, s in enumerate(sides) if mask[0] >> n & 1]
            mixed = len(shut) != 6 and any(
                sum(s.sheet == k for s in shut) == 1 for k in sheets)
        else:                # bits: sheets
            shut = [s for s in sides
                    if -mask[0] >> sheets.index(s.sheet) & 1]
        for s in shut:
            sb = sb.unchoose_interside(s.id, rng[s.intersection].buffer(EPS))
        for n, j in enumerate(js):
            if mask[1] >> n & 1:
                near = rng[j].buffer(Q(9, 2)) - rng[j].buffer(EPS)
                for s in sp.intersections[j].sides:
                    sb = sb.unchoose_interside(
                        s.id, near - sb.interside_chosen[s.id])
        for n, j in enumerate(js):
            if 'near' not in more:
                break
            near = rng[j].buffer(Q(9, 2)) - rng[j].buffer(EPS)
            (lo, hi), = rng[j].get_intervals()
            left, right = (Q(v) for v in more['near'][n])
            near = near - g1([(lo - left, hi + right)])
            for s in sp.intersections[j].sides:
                sb = sb.unchoose_interside(
                    s.id, near - sb.interside_chosen[s.id])
        for sheet, v in zip(sheets, more.get('shave', ())):
            for s in sides:
                (lo, hi), = rng[s.intersection].get_intervals()
                if s.sheet == sheet and Q(v):
                    sb = sb.unchoose_interside(
                        s.id, g1([(lo - EPS, lo + Q(v))]))
        # the rules that run before this stage
        for name in STAGES[2:]:
            sb = core.seam('plycutter.heuristics', name)(sb, prm)
    groups = crossings(sp, sb)
    rec.count('crossings', len(groups))
    rec.count('transitions')
    chosen0 = {k: models.to_shapely(v) for k, v in sb.sheet_chosen.items()}
    rngs = [ranges(g) for g in groups]
    best = []
    for r in rngs:
        sheets = sorted({s.sheet for j in r
                         for s in sp.intersections[j].sides})
        ar = {k: area_of(sp, sb, r, k) for k in sheets}
        top = max(float(a.area()) for a in ar.values())
        best.append({k: models.to_shapely(a) for k, a in ar.items()
                     if float(a.area()) > top - 1e-3})
    try:
        res = f(sb, prm)
    except Exception as e:
        rec.outcome((str(m), mask, 'refused'))
        rec.count('refused')
        if mixed:
            # a sheet barred from the crossing by one of its joints only:
            # no claim but that nothing wrong comes out
            return None
        # only right if the crossing could not have been attached
        for r, b in zip(rngs, best):
            if any(possible(sp, sb, r, k, g, chosen0[k]) is False
                   for k, g in b.items()):
                return None
        raise e
    allrng = {}
    for r in rngs:
        for j, v in r.items():
            allrng[j] = allrng[j] | v if j in allrng else v
    extras = {}
    for s in sp.intersides():
        new = res.interside_chosen[s.id] - sb.interside_chosen[s.id]
        lost = sb.interside_ok[s.id] - res.interside_ok[s.id]
        if not (sb.interside_chosen[s.id]
                - res.interside_chosen[s.id]).is_empty():
            return 'an earlier decision was lost'
        if not (res.interside_ok[s.id] - sb.interside_ok[s.id]).is_empty():
            return 'a position was opened'
        zone = allrng.get(s.intersection)
        ex = new - zone.buffer(EPS) if zone is not None else new
        if ex.measure1d() > EPS:
            extras[s.id] = ex
    for s in sp.intersides():
        lost = sb.interside_ok[s.id] - res.interside_ok[s.id]
        zone = g1([])
        if s.intersection in allrng:
            zone = allrng[s.intersection].buffer(EPS)
        o = s.opposite(sp)
        if o.id in extras:
            zone = zone | extras[o.id].buffer(EPS)
        if (lost - zone).measure1d() > EPS:
            return 'closed away from every crossing: %s of %s' % (
                lost - zone, s.id)
    used = set()
    taken = []
    for r, b in zip(rngs, best):
        # who may take it now
        holders = set()
        for j, v in sorted(r.items()):
            core_ = v.buffer(-EPS)
            for s in sp.intersections[j].sides:
                ok = res.interside_ok[s.id] & core_
                ch = res.interside_chosen[s.id] & core_
                if (ok - ch).measure1d() > EPS:
                    return 'the crossing %s of %s stays open' % (ok - ch,
                                                                 s.id)
                if not ch.is_empty():
                    holders.add(s.sheet)
        if len(holders) != 1:
            return 'the crossing %s is shared by %s' % (r, sorted(holders))
        k = holders.pop()
        if k not in b:
            return 'the crossing %s went to %s, most material is on %s' % (
                r, k, sorted(b))
        got = None
        for s in sp.intersides(k):
            if s.intersection not in r:
                continue
            v = r[s.intersection]
            if ((sb.interside_ok[s.id] & v)
                    - res.interside_chosen[s.id]).measure1d() > EPS:
                return 'part of the crossing on %s is not taken' % (s.id,)
        # attached, with the extra stretch if there is one
        piece = b[k]
        extra = []
        for s in sp.intersides(k):
            if s.id in extras and s.intersection in r:
                near = extras[s.id] & r[s.intersection].buffer(Q(4))
                if not near.is_empty():
                    extra.append((s, near))
        for s, near in extra:
            used.add(s.id)
            if len(near.get_intervals()) > 1:
                return 'several extra stretches %s' % near
            if near.measure1d() < Q(7, 5):
                return 'the extra stretch %s is too short' % near
            if near.measure1d() > Q(7, 2):
                return 'the extra stretch %s is too long' % near
            piece = piece.union(models.to_shapely(
                s.make_fingers(near.buffer(EPS * 2))).intersection(
                    models.to_shapely(sp.sheets[k].slices_max)))
        if len(extra) > 1:
            return 'more than one extra stretch'
        taken.append((k, piece))
        if extra and contact(b[k], chosen0[k]) > 3.3:
            return 'an extra stretch is taken without need'
        rec.outcome((str(m), mask, str(r), k, len(extra)))
    # attached to the sheet, perhaps by way of the piece next to it
    body = dict(chosen0)
    while taken:
        c = [contact(piece, body[k]) for k, piece in taken]
        n = c.index(max(c))
        k, piece = taken.pop(n)
        if c[n] < 1.3:
            return 'the piece of %s at the crossing touches the sheet ' \
                'along %.2f only' % (k, c[n])
        body[k] = body[k].union(piece)
    for k in extras:
        if k not in used:
            return 'chosen away from every crossing: %s of %s' % (
                extras[k], k)
    res.check(force=True)
    return None


def possible(sp, sb, r, k, piece, body):
    """True / False / None (too close to tell): can sheet k be attached?"""
    c = contact(piece, body)
    if c > 3.3:
        return True
    widest = Q(0)
    for s in sp.intersides(k):
        if s.intersection not in r:
            continue
        v = r[s.intersection]
        near = (v.buffer(Q(16, 5)) & sb.interside_ok[s.id]) - v
        for lo, hi in near.get_intervals():
            widest = max(widest, hi - lo)
    if widest > Q(31, 20):
        return True
    # reserved by another crossing, or too small
    return False
