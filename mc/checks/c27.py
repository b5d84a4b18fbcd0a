"""Loose pieces are removed, everything connected to support is kept."""
from gmpy2 import mpq as Q

from .. import core, models

PID = 'C27'
LEVEL = 'exploration'
CPU_LIMIT = 60
RULE = ('every pair (allowed area, area visible on both faces) of sets of '
        'cells of a 3 x 2 grid (large and tiny cells), with nothing, the supported part or a loose '
        'part already chosen, plus frames with islands inside holes: '
        'remove_loose must keep exactly the connected components that hold '
        'supported material, keep all decisions, and refuse to drop chosen '
        'material. Distinct = case.')
ASSUMPTIONS = ['components are connected across edges, not vertices']
W, H = 3, 2
SIZE = {0: (Q(4), Q(3)), 1: (Q(1, 3), Q(7)), 2: (Q(1, 8), Q(1, 7))}


def bounds(tier):
    return dict(grid=[W, H], sheets=2, layouts=list(RINGS))


def items(tier):
    out = [['grid', k, sz] + (['all'] if tier == 'thorough' else [])
           for k in range(1 << (W * H))
           for sz in ((0, 2) if tier == 'quick' else (0, 1, 2))]
    out += [['ring', r] for r in RINGS]
    return out


# (allowed pieces as (sign, box)), supports to try, expected components
RINGS = {
    'island': [(1, (0, 0, 20, 20)), (-1, (2, 2, 18, 18)), (1, (8, 8, 12, 12))],
    'two': [(1, (0, 0, 20, 20)), (-1, (2, 2, 18, 18)), (1, (4, 4, 16, 16)),
            (-1, (6, 6, 14, 14)), (1, (9, 9, 11, 11))],
}


def work(item, rec):
    if item[0] == 'ring':
        n = {'island': 2, 'two': 3}[item[1]]
        for s in range(1 << n):
            rec.check(item + [s])
        return
    for s in range(1 << (W * H)):
        # quick: decisions only with one supported cell, or all of them
        every = item[3:] == ['all'] or bin(s).count('1') == 1 or s == item[1]
        if item[2] and not every:
            continue
        for ch in (0, 1, 2) if every else (0,):
            rec.check(item[:3] + [s, ch])
            if rec.stop:
                return


_c = {}


def cell(sz, mask):
    if (sz, mask) not in _c:
        from plycutter.geometry.geom2d import Geom2D
        w, h = SIZE[sz]
        g = Geom2D.empty()
        for i in range(W * H):
            if mask >> i & 1:
                x, y = i % W, i // W
                g = g | models.box2(x * w, y * h, (x + 1) * w, (y + 1) * h)
        _c[sz, mask] = g
    return _c[sz, mask]


def comps(mask):
    out = []
    left = {i for i in range(W * H) if mask >> i & 1}
    while left:
        todo = [left.pop()]
        c = set(todo)
        while todo:
            i = todo.pop()
            x, y = i % W, i // W
            for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                if 0 <= x + dx < W and 0 <= y + dy < H:
                    j = (y + dy) * W + x + dx
                    if j in left:
                        left.remove(j)
                        c.add(j)
                        todo.append(j)
        out.append(sum(1 << i for i in c))
    return out


def build(ok, chosen, support):
    """A build with one sheet under test and one that needs nothing."""
    import pyrsistent as pyr
    from plycutter.sheetbuild import SheetBuild
    from plycutter.sheetplex import SheetPlex
    whole = models.box2(-100, -100, 100, 100)
    sp = SheetPlex(
        sheets=pyr.m(s0=models.make_sheet('s0', support, support | ok, whole),
                     s1=models.make_sheet('s1', whole, whole, whole)),
        intersections=pyr.m())
    return SheetBuild(
        sheetplex=sp, sheet_chosen=pyr.m(s0=chosen, s1=whole),
        sheet_ok=pyr.m(s0=ok, s1=whole), interside_chosen=pyr.m(),
        interside_ok=pyr.m()), whole


def run_case(case, rec):
    f = core.seam('plycutter.heuristics', 'remove_loose')
    from plycutter.geometry.geom2d import Geom2D
    refuse = False
    if case[0] == 'grid':
        _, k, sz, s, ch = case
        cs = comps(k)
        keep = sum(c for c in cs if c & s)
        loose = k & ~keep
        if ch == 2 and not loose:
            return None
        chm = (0, k & s, loose & -loose)[ch]
        refuse = ch == 2
        ok, sup, chosen = cell(sz, k), cell(sz, s), cell(sz, chm)
        want = cell(sz, keep)
    else:
        _, r, s = case
        ok = Geom2D.empty()
        for sign, b in RINGS[r]:
            ok = ok | models.box2(*b) if sign > 0 else ok - models.box2(*b)
        parts = [models.box2(0, 0, 1, 1), models.box2(9, 9, 11, 11),
                 models.box2(4, 4, 5, 5)]
        comp = [models.box2(0, 0, 20, 20) - models.box2(2, 2, 18, 18),
                models.box2(8, 8, 12, 12) if r == 'island' else
                models.box2(9, 9, 11, 11),
                models.box2(4, 4, 16, 16) - models.box2(6, 6, 14, 14)]
        sup = want = chosen = Geom2D.empty()
        for i in range(3):
            if s >> i & 1:
                sup = sup | parts[i]
                want = want | comp[i]
    sb, whole = build(ok, chosen, sup)
    rec.outcome(case)
    try:
        r = f(sb, models.params())
    except AssertionError:
        return None if refuse else 'refused'
    if refuse:
        return 'chosen material was dropped (or its loose piece kept)'
    got = r.sheet_ok['s0']
    if not ((got - want).is_empty() and (want - got).is_empty()):
        return 'kept area %s, expected %s' % (got.area(), want.area())
    if not (r.sheet_chosen['s0'].area() == chosen.area() and
            (chosen - r.sheet_chosen['s0']).is_empty()):
        return 'the chosen area changed'
    if r.sheet_ok['s1'].area() != whole.area():
        return 'another sheet changed'
    return None
