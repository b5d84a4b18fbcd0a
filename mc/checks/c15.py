"""Decision steps of a build: every sequence, against a point-set model."""
import itertools
import json

import numpy as np
import shapely
from gmpy2 import mpq as Q

from .. import core, models

PID = 'C15'
LEVEL = 'model_checking'
CPU_LIMIT = 120
RULE = ('explicit-state search of a reference model of the build state '
        '(per joint cell and side: allowed / chosen; per sheet: sample '
        'points inset and outset 1/100 at every corner of every finger '
        'cell: allowed / chosen). Every reachable model state (up to the '
        'depth for the three-panel corner) is reproduced on a real '
        'SheetBuild by its shortest history; every action - legal or not - '
        'is then executed on it: legal ones must have exactly the modelled '
        'effect on every area and joint, illegal ones must be refused, the '
        'earlier state must not change, check() must accept every reachable '
        'state of a single joint and reject every tampered one; steps that go wrong '
        'only by a small overlap are refused as well.')
ASSUMPTIONS = ['make_fingers places the fingers as C14 checks']
CELLS = {'L2': [0, 13, 34], 'L3': [0, 6, 21, 34], 'C': [0, 6, 21]}
# length of inconsistent parts (the tolerances are below 0.001 mm2)
# steps that are wrong only by a small overlap, after a first step
OVER = {None: lambda step: step in ('choose', 'tent'),
        'choose': lambda step: True,
        'tent': lambda step: step != 'area',
        'unchoose': lambda step: step in ('choose', 'tent')}
AMOUNTS = ('1/1000', '1/50', '1/10', '1')
KINDS = ('choose', 'tent', 'unchoose', 'area')


def bounds(tier):
    return dict(worlds=[(w, d) for w, d, _ in plan(tier)])


class World:
    cache = {}

    @classmethod
    def get(cls, name):
        if name not in cls.cache:
            cls.cache[name] = cls(name)
        return cls.cache[name]

    def __init__(self, name):
        from plycutter import sheetbuild
        from plycutter.geometry.geom1d import Geom1D
        self.name = name
        panels = [0, 4] if name[0] == 'L' else [0, 2, 4]
        sp = self.sp = models.sheetplex(['panels', panels])
        self.sb0 = sheetbuild.create_sheetbuild(sp, models.params())
        self.sides = [s for i in sorted(sp.intersections)
                      for s in sp.intersections[i].sides]
        self.sheets = sorted(sp.sheets)
        cuts = CELLS[name]
        self.nc = len(cuts) - 1
        self.cell = []          # per side, per cell: (lo, hi)
        self.fing = []
        pts = {k: [] for k in self.sheets}
        for s in self.sides:
            ivs = self.sb0.interside_ok[s.id].get_intervals()
            lo = min(a for a, b in ivs)
            hi = max(b for a, b in ivs)
            # the corner cube lies at one end of the coordinate
            if lo < 0 and -lo > hi:
                cs = [(-Q(b), -Q(a)) for a, b in zip(cuts, cuts[1:])]
            else:
                cs = [(Q(a), Q(b)) for a, b in zip(cuts, cuts[1:])]
            self.cell.append(cs)
            fs = [s.make_fingers(Geom1D([list(c)])) for c in cs]
            self.fing.append(fs)
            e = 0.01
            for f in fs:
                p = f.polygons()[0].exterior()
                cx = float(sum(a for a, b in p) / len(p))
                cy = float(sum(b for a, b in p) / len(p))
                for a, b in p:
                    a, b = float(a), float(b)
                    sx, sy = np.sign(a - cx) * e, np.sign(b - cy) * e
                    pts[s.sheet] += [(a - sx, b - sy), (a + sx, b + sy),
                                     (a - sx, b + sy), (a + sx, b - sy)]
        self.pts = {k: np.array(sorted(set(v))) for k, v in pts.items()}
        self.fpts = [[self.inside(s.sheet, f) for f in fs]
                     for s, fs in zip(self.sides, self.fing)]
        self.init = self.observe(self.sb0)
        self.memo = {}

    def geom1d(self, side, mask):
        from plycutter.geometry.geom1d import Geom1D
        return Geom1D([list(self.cell[side][c]) for c in range(self.nc)
                       if mask >> c & 1])

    def fingers(self, side, mask):
        g = None
        for c in range(self.nc):
            if mask >> c & 1:
                g = self.fing[side][c] if g is None else \
                    g | self.fing[side][c]
        return g

    def inside(self, sheet, g):
        shp = models.to_shapely(g)
        p = self.pts[sheet]
        c = shapely.contains_xy(shp, p[:, 0], p[:, 1])
        return frozenset(np.nonzero(c)[0].tolist())

    def cells_of(self, side, g):
        m, bad = 0, Q(0)
        whole = Q(0)
        from plycutter.geometry.geom1d import Geom1D
        for c, iv in enumerate(self.cell[side]):
            w = (g & Geom1D([list(iv)])).measure1d()
            whole += w
            if w == iv[1] - iv[0]:
                m |= 1 << c
            elif w != 0:
                bad += w
        if self.name[0] == 'L' and whole != g.measure1d():
            bad += 1
        return m if bad == 0 else (m, float(bad))

    def observe(self, sb):
        return (tuple(self.cells_of(i, sb.interside_ok[s.id])
                      for i, s in enumerate(self.sides)),
                tuple(self.cells_of(i, sb.interside_chosen[s.id])
                      for i, s in enumerate(self.sides)),
                tuple(self.inside(k, sb.sheet_ok[k]) for k in self.sheets),
                tuple(self.inside(k, sb.sheet_chosen[k])
                      for k in self.sheets))

    # --- the model
    def actions(self):
        kinds = KINDS if self.name[0] == 'L' else KINDS[:1] + KINDS[2:3]
        for kind in kinds:
            for s in range(len(self.sides)):
                for m in range(1, 1 << self.nc):
                    yield [kind, s, m]

    def pts_of(self, side, mask):
        r = frozenset()
        for c in range(self.nc):
            if mask >> c & 1:
                r |= self.fpts[side][c]
        return r

    def model(self, st, act):
        """None when the action must be refused."""
        kind, s, m = act
        ok, ch, sok, sch = map(list, st)
        opp = s ^ 1
        si = self.sheets.index(self.sides[s].sheet)
        oi = self.sheets.index(self.sides[opp].sheet)
        mine, other = self.pts_of(s, m), self.pts_of(opp, m)
        if kind == 'unchoose':
            if ch[s] & m:
                return None
            ok[s] &= ~m
        elif kind == 'area':
            if sch[si] & mine:
                return None
            sok[si] -= mine
        else:
            if m & ~ok[s] or sch[oi] & other:
                return None
            if kind == 'choose':
                sch[si] |= mine & sok[si]
            sok[oi] -= other
            ch[s] |= m
            ok[opp] &= ~m
        return tuple(ok), tuple(ch), tuple(sok), tuple(sch)

    def reach(self, depth):
        """{state: shortest history}"""
        seen = {self.init: []}
        front = [self.init]
        for _ in range(depth):
            nxt = []
            for st in front:
                for a in self.actions():
                    n = self.model(st, a)
                    if n is not None and n not in seen:
                        seen[n] = seen[st] + [a]
                        nxt.append(n)
            front = nxt
        return seen, not front

    # --- the implementation
    def do(self, sb, act):
        kind, s, m = act
        side = self.sides[s]
        if kind == 'unchoose':
            return sb.unchoose_interside(side.id, self.geom1d(s, m))
        if kind == 'area':
            return sb.unchoose_sheet_area(side.sheet, self.fingers(s, m))
        if kind == 'tent':
            return sb.choose_interside(side.id, self.geom1d(s, m),
                                       tentative=True)
        return sb.choose_interside(side.id, self.geom1d(s, m))

    def replay(self, hist):
        k = json.dumps(hist)
        if not hist:
            return self.sb0
        if k not in self.memo:
            if len(self.memo) > 500:
                self.memo.clear()
            self.memo[k] = self.do(self.replay(hist[:-1]), hist[-1])
        return self.memo[k]


def plan(tier):
    """[world, depth, shards]"""
    if tier == 'quick':
        return [('L2', 99, 40), ('C', 2, 24)]
    return [('L3', 4, 160), ('L2', 99, 40), ('C', 3, 120)]


def items(tier):
    out = []
    for w, d, n in plan(tier):
        for k in range(n):
            out.append([w, d, k, n])
    out += [['tamper', w] for w in ('L2', 'L3')]
    out += [['multi', 'L2'], ['cross', 'C']]
    return out


def weight(it):
    return 0 if it[0] in ('tamper', 'multi', 'cross') else 5


def work(item, rec):
    if item[0] == 'tamper':
        w = World.get(item[1])
        for kind in range(4):
            for s in (0, 1):
                for m in range(1, 1 << w.nc):
                    rec.check(['tamper', item[1], kind, s, m])
                for c in range(w.nc):
                    for a in AMOUNTS:
                        rec.check(['tamper', item[1], kind, s, [c, a]])
        for first in OVER:
            for s in (0, 1):
                for a in AMOUNTS:
                    for step in KINDS:
                        if OVER[first](step):
                            rec.check(['over', item[1], first, step, s, a])
        return
    if item[0] == 'cross':
        n = len(World.get(item[1]).sides)
        for s, u in itertools.product(range(n), repeat=2):
            for amt in AMOUNTS:
                for step in ('choose', 'tent'):
                    rec.check(['cross', item[1], s, u, step, amt])
        return
    if item[0] == 'multi':
        for a, b in itertools.product(range(1, 4), repeat=2):
            for k in ('choose', 'tent', 'unchoose'):
                rec.check(['multi', item[1], k, a, b])
        return
    w = World.get(item[0])
    seen, fix = w.reach(item[1])
    hists = sorted(seen.values())
    if item[0] == 'C' or not fix:
        # the outermost layer is checked as results of the one before
        hists = [h for h in hists if len(h) < item[1]]
    if item[2] == 0:
        rec.count('fixpoint_worlds' if fix else 'depth_limited_worlds')
        rec.count('states_known', len(seen))
    if w.name[0] == 'C':
        # shard by action
        for h in hists:
            rec.count('states', 1 if item[2] == 0 else 0)
            for i, a in enumerate(w.actions()):
                if i % item[3] == item[2]:
                    rec.check([item[0], h, a])
                    rec.count('transitions')
                    if rec.stop:
                        return
        return
    n = len(hists)
    for h in hists[item[2] * n // item[3]:(item[2] + 1) * n // item[3]]:
        rec.count('states')
        rec.check([item[0], h, None])
        for a in w.actions():
            rec.check([item[0], h, a])
            rec.count('transitions')
            if rec.stop:
                return


def diff(w, want, got):
    for name, a, b in zip(('joint allowed', 'joint chosen', 'sheet allowed',
                           'sheet chosen'), want, got):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                if isinstance(x, frozenset):
                    k = w.sheets[i]
                    return '%s of %s: missing %s, too much %s' % (
                        name, k, w.pts[k][sorted(x - y)][:3].tolist(),
                        w.pts[k][sorted(y - x)][:3].tolist())
                return '%s of %s: cells %s instead of %s' % (
                    name, w.sides[i].id, y, x)
    return None


def run_case(case, rec):
    if case[0] == 'tamper':
        return tamper(case)
    if case[0] == 'over':
        rec.outcome(case)
        return over(case)
    if case[0] == 'multi':
        return multi(case)
    if case[0] == 'cross':
        rec.outcome(case)
        return cross(case)
    w = World.get(case[0])
    hist, act = case[1:]
    st = w.init
    for a in hist:
        st = w.model(st, a)
    sb = w.replay(hist)
    if act is None:
        rec.outcome((case[0], repr(st)))
        d = diff(w, st, w.observe(sb))
        if d:
            return d
        sb.check(force=True)
        return None
    want = w.model(st, act)
    try:
        res = w.do(sb, act)
    except AssertionError:
        res = None
    rec.outcome((case[0], repr(st), act, repr(want)))
    if want is None:
        if res is not None:
            return 'illegal step %s was accepted' % act
        rec.count('refused')
        return None
    if res is None:
        return 'legal step %s was refused' % act
    d = diff(w, want, w.observe(res))
    if d:
        return 'after %s: %s' % (act, d)
    if act[1] == 0:
        d = diff(w, st, w.observe(sb))
        if d:
            return 'the build before %s changed: %s' % (act, d)
    return None


def tamper(case):
    from plycutter.geometry.geom1d import Geom1D
    _, name, kind, s, m = case
    w = World.get(name)
    sb = w.sb0
    side, opp = w.sides[s], w.sides[s ^ 1]
    if isinstance(m, list):     # a small part of one cell
        lo = w.cell[s][m[0]][0] + 1
        v = Geom1D([[lo, lo + Q(m[1])]])
        f = side.make_fingers(v)
    else:
        v = w.geom1d(s, m)
        f = w.fingers(s, m)
    sb.check(force=True)
    if kind == 0:      # chosen area that is not allowed (nor contested)
        bad = sb.transform(['sheet_ok', side.sheet], lambda g: g - f,
                           ['sheet_chosen', side.sheet], lambda g: g | f,
                           ['interside_ok', opp.id], lambda g: g - v)
    elif kind == 1:    # chosen side that is not allowed
        bad = sb.transform(['interside_chosen', side.id], lambda g: g | v,
                           ['interside_ok', side.id], lambda g: g - v,
                           ['interside_ok', opp.id], lambda g: g - v)
    elif kind == 2:    # chosen side, the other still allowed
        bad = sb.transform(['interside_chosen', side.id], lambda g: g | v)
    else:              # chosen material, the other side still allowed
        bad = sb.transform(['sheet_chosen', side.sheet], lambda g: g | f)
    try:
        bad.check(force=True)
    except AssertionError:
        return None
    return 'check() accepts an inconsistent build (kind %d)' % kind


def over(case):
    from plycutter.geometry.geom1d import Geom1D
    _, name, first, step, s, amt = case
    w = World.get(name)
    amt = Q(amt)
    sb = w.sb0
    side, opp = w.sides[s], w.sides[s ^ 1]
    if first is None:           # beyond what was ever allowed
        hi = max(b for a, b in sb.interside_ok[side.id].get_intervals())
        v = Geom1D([[hi - 1, hi + amt]])
    else:                       # into a cell decided before
        sb = w.do(sb, [first, s, 1])
        lo, hi = w.cell[s][0]
        lo2, hi2 = w.cell[s][1]
        v = Geom1D([[hi - amt, hi + 1]] if lo2 == hi else
                   [[lo - 1, lo + amt]])
        if first in ('choose', 'tent') and step in ('choose', 'tent'):
            side = opp
    keep = w.observe(sb)
    try:
        if step == 'unchoose':
            res = sb.unchoose_interside(side.id, v)
        elif step == 'area':
            res = sb.unchoose_sheet_area(side.sheet, side.make_fingers(v))
        else:
            res = sb.choose_interside(side.id, v, tentative=step == 'tent')
    except AssertionError:
        return None if w.observe(sb) == keep else 'a refused step changed ' \
            'the build'
    return '%s reaching %s too far was accepted' % (step, amt)


def cross(case):
    """Material chosen for one joint bars the other sheet of another joint
    from it, however little they overlap."""
    from plycutter.geometry.geom1d import Geom1D
    _, name, s, u, step, amt = case
    w = World.get(name)
    amt = Q(amt)
    a, b = w.sides[s], w.sides[u]
    opp = w.sides[u ^ 1]
    if a.sheet != opp.sheet or a.intersection == b.intersection:
        return None
    sb = w.do(w.sb0, ['choose', s, 1])
    lo, hi = w.cell[u][0]
    lo2, hi2 = w.cell[u][1]
    for near in (False, True):
        d = -amt if near else amt
        v = Geom1D([[hi - d, hi + 1]] if lo2 == hi else [[lo - 1, lo + d]])
        keep = w.observe(sb)
        try:
            sb.choose_interside(b.id, v, tentative=step == 'tent')
            if not near:
                return '%s overlapping other material by %s was accepted' \
                    % (step, amt)
        except AssertionError:
            if near and amt < 1:
                return '%s next to other material was refused' % step
        if w.observe(sb) != keep:
            return 'the earlier build changed'
    return None


def multi(case):
    _, name, kind, a, b = case
    w = World.get(name)
    ids = [s.id for s in w.sides]
    vs = {ids[0]: w.geom1d(0, a), ids[1]: w.geom1d(1, b)}
    st = w.model(w.init, [kind, 0, a])
    st = w.model(st, [kind, 1, b])
    try:
        if kind == 'unchoose':
            res = w.sb0.unchoose_intersides(vs)
        else:
            res = w.sb0.choose_intersides(vs, tentative=kind == 'tent')
    except AssertionError:
        res = None
    if (res is None) != (st is None):
        return '%s of %s and %s: %s' % (
            kind, a, b, 'refused' if res is None else 'accepted')
    return None if st is None else diff(w, st, w.observe(res))
