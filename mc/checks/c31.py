"""Propagation rules: every bounded build state, one rule at a time."""
import itertools

from gmpy2 import mpq as Q

from .. import core, models

PID = 'C31'
LEVEL = 'model_checking'
CPU_LIMIT = 120
RULE = ('on two perpendicular panels with a joint of three cells (one of them '
        'may be as narrow as 2/5), every '
        'combination of allowed positions on the two sides (8 x 8), of '
        'missing material in the joint (half strips, 2^6 per sheet) and of '
        'material beside the joint (2^6) is a state; each rule is run on '
        'the real state and the result compared cell by cell with the rule '
        'as documented: a position without possible material is closed, '
        'material on positions closed to this side but open to the other '
        'is disallowed, positions open to one side only are chosen by it, '
        'a sheet with nothing beside the joint gives up its side where '
        'the other may take it, thin '
        'leftovers go; at a corner of three panels all 2^6 states of the '
        'six joint sides for the first two rules. Nothing else may change. Transitions = rule runs.')
ASSUMPTIONS = ['effects within 1/10 of a cell boundary are not judged']
AL = [0, 11, 20, 34]
NARROW = {'1/2': [0, 11, Q(23, 2), 34], '1': [0, 11, 12, 34],
          'end': [0, Q(2, 5), 20, 34]}


def bounds(tier):
    return dict(cells=AL, narrow_cells=['1/2', '1', '2/5'], rules=['update_intersection_ok', 'update_sheet_ok',
                                 'choose_the_ok_side',
                                 'choose_obviously_irrelevant',
                                 'clean_up_thin_ok_parts'])


def items(tier):
    th = tier == 'thorough'
    out = []
    for ok0 in range(8):
        for a in range(8):
            out.append(['uio', ok0, a] + (['all'] if th else []))
    for ok0 in range(8):
        out.append(['uso', ok0])
        out.append(['cos', ok0])
    for m in range(0, 64, 4):
        out.append(['irr', m] + (['all'] if th else []))
    out.append(['thin'])
    for c in (CORNERS if th else CORNERS[:2]):
        for okm in range(0, 64, 8):
            out.append(['corner', c, okm])
    return out


CORNERS = ['024', '135', '034', '125']


def weight(it):
    return {'irr': 5, 'uio': 3}.get(it[0], 2)


def work(item, rec):
    k = item[0]
    if k == 'uio':
        for b in range(8):
            for side in (0, 1):
                rec.check([k, side, item[1], item[2], b])
                if item[1] == 7:
                    for g in NARROW:
                        rec.check([k, side, 7, item[2], b, g])
    elif k in ('uso', 'cos'):
        for ok1 in range(8):
            for v in range(4 if k == 'cos' else 2):
                rec.check([k, item[1], ok1, v])
    elif k == 'corner':
        for okm in range(item[2], item[2] + 8):
            for r in ('uso', 'uio'):
                rec.check([k, item[1], okm, r])
    elif k == 'irr':
        for m in range(item[1], item[1] + 4):
            for other in (0, 1) if item[2:] else (0,):
                for shut in range(8) if item[2:] else (0, 5):
                    rec.check([k, m, other, shut])
    else:
        for w in ('1/4', '9/10', '11/10', '2', '7'):
            for ch in range(5):
                for pos in range(3):
                    rec.check([k, w, ch, pos])
    rec.count('states')


_b = {}


def base():
    if 'sb' not in _b:
        from plycutter import sheetbuild
        sp = models.two_sheets([models.box2(-9, 0, 15, 34),
                                models.box2(0, 0, 15, 34)])
        _b['sp'] = sp
        _b['sb'] = sheetbuild.create_sheetbuild(sp, models.params())
        _b['sides'] = sp.intersections['s0,s1'].sides
        _b['sheets'] = [s.sheet for s in _b['sides']]
    return _b['sp'], _b['sb'], _b['sides']


def g1(mask):
    from plycutter.geometry.geom1d import Geom1D
    return Geom1D([[Q(AL[c]), Q(AL[c + 1])] for c in range(3)
                   if mask >> c & 1])


def mask1(g):
    """cells fully in; -1 when a cell is neither in nor out (but for 1/10
    at its ends)."""
    from plycutter.geometry.geom1d import Geom1D
    m = 0
    for c in range(3):
        lo, hi = AL[c] + Q(1, 8), AL[c + 1] - Q(1, 8)
        w = (g & Geom1D([[lo, hi]])).measure1d()
        if w == hi - lo:
            m |= 1 << c
        elif w != 0:
            return -1
    return m


def inner(side, c, f0=Q(0), f1=Q(1)):
    """The strip over cell c without its 1/8 rim."""
    from plycutter.geometry.geom1d import Geom1D
    g = side.make_fingers(Geom1D([[AL[c] + Q(1, 8), AL[c + 1] - Q(1, 8)]]),
                          f0 + Q(1, 32), f1 - Q(1, 32))
    return g


def covers(g, f):
    """1 inside, 0 outside, -1 partly"""
    a = (g & f).area()
    return 1 if a == f.area() else 0 if a == 0 else -1


def same2(a, b):
    return (a - b).is_empty() and (b - a).is_empty()


def unchanged(sb, res, keep):
    for f in keep:
        x, y = sb[f], res[f]
        for k in x.keys():
            if f.startswith('sheet'):
                if not same2(x[k], y[k]):
                    return '%s of %s changed' % (f, k)
            elif not (x[k] ^ y[k]).is_empty():
                return '%s of %s changed' % (f, k)
    return None


def rule(name):
    return core.seam('plycutter.heuristics', name)


def run_case(case, rec):
    rec.outcome(case)
    rec.count('transitions')
    return globals()['do_' + case[0]](*case[1:])


def do_uio(side, okm, a, b, narrow=None):
    """Half strips a (near) and b (far) of the joint cells are missing."""
    if narrow:
        keep = AL[:]
        AL[:] = NARROW[narrow]
        try:
            return do_uio(side, okm, a, b)
        finally:
            AL[:] = keep
    f = rule('update_intersection_ok')
    sp, sb, sides = base()
    s = sides[side]
    gone = s.make_fingers(g1(a), 0, Q(1, 2)) | \
        s.make_fingers(g1(b), Q(1, 2), 1)
    sb = sb.unchoose_sheet_area(s.sheet, gone)
    sb = sb.unchoose_interside(s.id, g1(7 & ~okm))
    res = f(sb, models.params())
    want = okm & ~(a & b)
    got = mask1(res.interside_ok[s.id])
    if got != want:
        return 'allowed cells %s, expected %s' % (
            res.interside_ok[s.id], g1(want))
    if not (res.interside_ok[s.id] - sb.interside_ok[s.id]).is_empty():
        return 'a position was opened'
    o = sides[1 - side]
    if mask1(res.interside_ok[o.id]) != 7:
        return 'the other side changed'
    return unchanged(sb, res, ('sheet_ok', 'sheet_chosen',
                               'interside_chosen'))


def states2(ok0, ok1):
    sp, sb, sides = base()
    sb = sb.unchoose_interside(sides[0].id, g1(7 & ~ok0))
    return sp, sb.unchoose_interside(sides[1].id, g1(7 & ~ok1)), sides


def do_uso(ok0, ok1, pre):
    """pre: cell 0 was chosen by side 0 before."""
    f = rule('update_sheet_ok')
    sp, sb, sides = base()
    ok = [ok0, ok1]
    if pre:
        if not ok0 & 1 or ok1 & 1:
            return None
        sb = sb.choose_interside(sides[0].id, g1(1))
    for k in (0, 1):
        sb = sb.unchoose_interside(sides[k].id, g1(7 & ~ok[k]))
    res = f(sb, models.params())
    for k in (0, 1):
        s = sides[k]
        got, old = res.sheet_ok[s.sheet], sb.sheet_ok[s.sheet]
        if not (got - old).is_empty():
            return 'material was allowed on %s' % s.sheet
        if not (sb.sheet_chosen[s.sheet] - got).is_empty():
            return 'chosen material was disallowed on %s' % s.sheet
        for c in range(3):
            i = inner(s, c)
            was = covers(old, i)
            now = covers(got, i)
            mine, other = ok[k] >> c & 1, ok[1 - k] >> c & 1
            if not mine and not other:
                continue
            want = was if mine else 0
            if now != want:
                return 'joint cell %d of %s is %s' % (c, s.sheet, now)
        # away from the joint nothing changes
        lost = old - got
        strip = s.make_fingers(g1(7)).buffer(Q(1, 10))
        if not (lost - strip).is_empty():
            return 'material away from the joint was disallowed on %s' % \
                s.sheet
    return unchanged(sb, res, ('sheet_chosen', 'interside_ok',
                               'interside_chosen'))


def do_cos(ok0, ok1, var):
    """var 1/2: cell 0 already chosen by side 0/1; var 3: slivers."""
    from plycutter.geometry.geom1d import Geom1D
    f = rule('choose_the_ok_side')
    sp, sb, sides = base()
    ok = [ok0, ok1]
    ch = [0, 0]
    if var in (1, 2):
        k = var - 1
        if not ok[k] & 1 or ok[1 - k] & 1:
            return None
        sb = sb.choose_interside(sides[k].id, g1(1))
        ch[k] = 1
    for k in (0, 1):
        sb = sb.unchoose_interside(sides[k].id, g1(7 & ~ok[k]))
    sl = None
    if var == 3:
        # a sliver in cell 1 open only to side 0
        if not (ok0 >> 1 & 1 and ok1 >> 1 & 1):
            return None
        sl = Geom1D([[Q(15), Q(15) + Q(1, 100)]])
        sb = sb.unchoose_interside(sides[1].id, sl)
    res = f(sb, models.params())
    for k in (0, 1):
        s, o = sides[k], sides[1 - k]
        only = ok[k] & ~ok[1 - k]
        want = g1(only | ch[k])
        got = res.interside_chosen[s.id]
        if (got ^ want).measure1d() > Q(1, 50):
            return 'side %d has chosen %s, expected %s' % (k, got, want)
        for c in range(3):
            i = inner(s, c)
            if only >> c & 1 and covers(res.sheet_chosen[s.sheet], i) != 1:
                return 'chosen cell %d is missing on sheet %s' % (c, s.sheet)
            if ok[1 - k] >> c & 1 and not ok[k] >> c & 1 and \
                    covers(res.sheet_ok[s.sheet], i) != 0:
                return 'cell %d chosen by the other is allowed on %s' % (
                    c, s.sheet)
            if ok[0] >> c & ok[1] >> c & 1 and (
                    covers(res.sheet_chosen[s.sheet], i) != 0):
                return 'open cell %d was decided on %s' % (c, s.sheet)
        if (res.interside_ok[s.id] ^ sb.interside_ok[s.id]).measure1d() > \
                Q(1, 50):
            return 'side %d allows %s, before %s' % (
                k, res.interside_ok[s.id], sb.interside_ok[s.id])
        if sl is not None:
            if not (got & sl).is_empty():
                return 'a sliver was chosen'
            if not (res.interside_ok[s.id] & sl).is_empty():
                return 'a sliver stays open'
    res.check(force=True)
    return None


def do_irr(m, other, shut=0):
    """m: which cells beside the joint of sheet 0 hold material;
    shut: cells the other side may not take."""
    from plycutter import sheetbuild
    f = rule('choose_obviously_irrelevant')
    cells = [(0, AL[c], 6, AL[c + 1]) for c in range(3)]
    for c in range(3):
        if m >> c & 1:
            cells.append((-9, AL[c], 0, AL[c + 1]))
        if m >> 3 + c & 1:
            cells.append((6, AL[c], 15, AL[c + 1]))
    mats = [models.cells2(cells),
            models.box2(0, 0, 6 if other else 15, 34)]
    sp = models.two_sheets(mats)
    sb = sheetbuild.create_sheetbuild(sp, models.params())
    sides = sp.intersections['s0,s1'].sides
    k0 = [s.sheet for s in sides].index('s0')
    for s in sides:
        if mask1(sb.interside_ok[s.id]) != 7:
            return 'the joint is not open to begin with'
    sb = sb.unchoose_interside(sides[1 - k0].id, g1(shut))
    res = f(sb, models.params())
    beside = (m | m >> 3) & 7
    for k in (0, 1):
        s = sides[k]
        want = beside | shut if k == k0 else (0 if other else 7 & ~shut)
        if mask1(res.interside_ok[s.id]) != want:
            return 'sheet %s may take %s, expected %s' % (
                s.sheet, res.interside_ok[s.id], g1(want))
        if not (res.interside_ok[s.id] - sb.interside_ok[s.id]).is_empty():
            return 'a position was opened'
    return unchanged(sb, res, ('sheet_ok', 'sheet_chosen',
                               'interside_chosen'))


def corner(name):
    """Three panels meeting in a corner: the build, and for every sheet its
    joint sides with the corner's stretch of each joint."""
    if name not in _b:
        import trimesh
        from plycutter import create_sheetplex, sheetbuild
        boxes = models.panel_boxes([int(c) for c in name], (32, 28, 26), 6)
        vs, fs = models.mesh_data(boxes)
        prm = models.params()
        sp = create_sheetplex.create_sheetplex(
            trimesh.Trimesh(vertices=vs, faces=fs, process=False), prm)
        sb = sheetbuild.create_sheetbuild(sp, prm)
        rng = {}
        for sheet in sp.sheets:
            a, b = sp.intersides(sheet)
            both = a.make_fingers(sb.interside_ok[a.id]) & \
                b.make_fingers(sb.interside_ok[b.id])
            for s in (a, b):
                p = s.project_to_1d(both)
                if s.intersection in rng:
                    p = p & rng[s.intersection]
                rng[s.intersection] = p
        _b[name] = sp, sb, rng
    return _b[name]


def do_corner(name, okm, r):
    """okm: which of the six joint sides may still take the corner."""
    f = rule('update_sheet_ok' if r == 'uso' else 'update_intersection_ok')
    sp, sb, rng = corner(name)
    sides = sorted(sp.intersides(), key=lambda s: str(s.id))
    if len(sides) != 6:
        return 'a corner of three panels has %d joint sides' % len(sides)
    ok = {}
    for n, s in enumerate(sides):
        ok[s.id] = okm >> n & 1
        if not ok[s.id]:
            sb = sb.unchoose_interside(
                s.id, rng[s.intersection].buffer(Q(1, 50)))
    if r == 'uio':
        # take the corner's material away from the sheets of two sides
        gone = [s.sheet for s in sides[::3]]
        for s in sides:
            if s.sheet in gone:
                sb = sb.unchoose_sheet_area(
                    s.sheet, s.make_fingers(rng[s.intersection].buffer(1))
                    - sb.sheet_chosen[s.sheet])
    res = f(sb, models.params())
    for sheet in sp.sheets:
        mine = [s for s in sides if s.sheet == sheet]
        here = None
        for s in mine:
            g = s.make_fingers(rng[s.intersection].buffer(-Q(1, 4)),
                               Q(1, 16), Q(15, 16))
            here = g if here is None else here & g
        if r == 'uso':
            was, now = (covers(x.sheet_ok[sheet], here) for x in (sb, res))
            alive = any(ok[s.id] for s in mine)
            other = any(ok[s.opposite(sp).id] for s in mine)
            # nobody may take it: no claim
            if alive or other:
                want = was if alive else 0
                if now != want:
                    return 'the corner of %s is %s, expected %s' % (
                        sheet, now, want)
            if not (sb.sheet_chosen[sheet]
                    - res.sheet_ok[sheet]).is_empty():
                return 'chosen material was disallowed on %s' % sheet
        else:
            has = (sb.sheet_ok[sheet] & here).area() > 0
            for s in mine:
                m = rng[s.intersection].buffer(-Q(1, 4))
                k = res.interside_ok[s.id] & m
                want = ok[s.id] and has
                if (k.measure1d() > 0) != bool(want) or (
                        want and k.measure1d() != m.measure1d()):
                    return 'side %s may take %s of the corner, ' \
                        'expected %s' % (s.id, k, want)
    if r == 'uso':
        return unchanged(sb, res, ('sheet_chosen', 'interside_ok',
                                   'interside_chosen'))
    return unchanged(sb, res, ('sheet_ok', 'sheet_chosen',
                               'interside_chosen'))


def do_thin(w, ch, pos):
    """A spike of width w on the allowed area; ch: 1 it is chosen, 2 only
    it is, 3 nothing is, 4 something apart is."""
    import pyrsistent as pyr
    from plycutter.sheetbuild import SheetBuild
    from plycutter.sheetplex import SheetPlex
    f = rule('clean_up_thin_ok_parts')
    w = Q(w)
    body = models.box2(0, 0, 20, 20)
    spike = [models.box2(8, 20, 8 + w, 30), models.box2(20, 3, 27, 3 + w),
             models.box2(-5, 0, 0, w)][pos]
    far = models.box2(100, 100, 110, 110)
    ok = body | spike
    apart = models.box2(40, 40, 50, 50)
    if ch == 4:
        ok = ok | apart
    chosen = [body, body | spike, spike, body - body, apart][ch]
    sp = SheetPlex(sheets=pyr.m(
        s0=models.make_sheet('s0', ok, ok, ok),
        s1=models.make_sheet('s1', far, far, far)), intersections=pyr.m())
    sb = SheetBuild(sheetplex=sp, sheet_chosen=pyr.m(s0=chosen, s1=far),
                    sheet_ok=pyr.m(s0=ok, s1=far), interside_chosen=pyr.m(),
                    interside_ok=pyr.m())
    res = f(sb, models.params())
    got = res.sheet_ok['s0']
    if not (got - ok).is_empty():
        return 'material was added'
    if not (chosen - got).is_empty():
        return 'chosen material was disallowed'
    bx, by = [(8 + w / 2, 29), (26, 3 + w / 2), (-4, w / 2)][pos]
    mid = models.box2(bx - w / 8, by - w / 8, bx + w / 8, by + w / 8)
    want = 1 if ch in (1, 2) or w > 1 else 0
    if covers(got, mid) != want:
        return 'a part of width %s is %s' % (w, covers(got, mid))
    if want == 0:
        # a disc of radius 1/2 reaches only so far into the narrow part
        reach = .5 - (.25 - min(.25, float(w) ** 2 / 4)) ** .5
        left = float((got & spike).area())
        if left > float(w) * reach * 1.3 + .02:
            return 'of a part of width %s the area %.3f is left' % (w, left)
    if (res.sheet_ok['s1'] - far).area() or (far - res.sheet_ok['s1']).area():
        return 'another sheet changed'
    if not same2(res.sheet_chosen['s0'], chosen):
        return 'the chosen area changed'
    return None
