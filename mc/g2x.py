"""Explicit-state exploration of the Geom2D algebra over a layout.

A state is a Geom2D value reached from the empty set by operations whose
other operand is a generator (or a union of generators).  A history is a list
of steps [op, operand] with op in or/and/sub/rsub and operand an int k
(generator k) or ['m', mask] (union of the generators in mask); or ['union', ['l', [k..]]].
"""
from . import geo, layouts

OPS = ('or', 'and', 'sub', 'rsub')


class World:
    _cache = {}

    @classmethod
    def get(cls, layout, emb):
        k = (layout, emb)
        if k not in cls._cache:
            cls._cache[k] = cls(layout, emb)
        return cls._cache[k]

    def __init__(self, layout, emb):
        from plycutter.geometry.geom2d import Geom2D
        self.G = Geom2D
        self.rings = layouts.rings(layout, emb)
        self.dec = geo.Decomp(self.rings)
        self.gens = [Geom2D.polygon(r, reorient=True) for r in self.rings]
        self.gmask = [self.dec.gen_mask(k) for k in range(len(self.rings))]
        self.memo = {}
        self.memo_ops = {}

    def operand(self, o):
        """(Geom2D, mask)"""
        if isinstance(o, int):
            return self.gens[o], self.gmask[o]
        m = o[1]
        if m not in self.memo_ops:
            sel = [k for k in range(len(self.gens)) if m >> k & 1]
            g = self.G.empty()
            msk = 0
            for k in sel:
                g = g | self.gens[k]
                msk |= self.gmask[k]
            if len(self.memo_ops) > 3000:
                self.memo_ops.clear()
            self.memo_ops[m] = (g, msk)
        return self.memo_ops[m]

    def step(self, state, mask, op, o):
        if op == 'union':       # of a whole list, and the state if any
            sel = list(o[1])
            gs = ([] if state.is_empty() else [state]) + \
                [self.gens[k] for k in sel]
            for k in sel:
                mask |= self.gmask[k]
            return self.G.union(gs), mask
        b, bm = self.operand(o)
        if op == 'or':
            return state | b, mask | bm
        if op == 'and':
            return state & b, mask & bm
        if op == 'sub':
            return state - b, mask & ~bm
        if op == 'rsub':
            return b - state, bm & ~mask
        if op == 'ror':
            return b | state, mask | bm
        if op == 'rand':
            return b & state, mask & bm
        raise ValueError(op)

    def run(self, hist, memo=True):
        """Execute a history on the real code: (Geom2D, expected mask)."""
        key = tuple((op, o if isinstance(o, int) else (
                        o[0], tuple(o[1]) if o[0] == 'l' else o[1]))
                    for op, o in hist)
        if not key:
            return self.G.empty(), 0
        if memo and key in self.memo:
            return self.memo[key]
        s, m = self.run(hist[:-1], memo)
        r = self.step(s, m, hist[-1][0], hist[-1][1])
        if memo:
            if len(self.memo) > 6000:
                self.memo.clear()
            self.memo[key] = r
        return r


def mask_history(mask, n, how):
    """Two canonical ways to build a union of atoms."""
    if how == 0:
        return [['or', k] for k in range(n) if mask >> k & 1]
    # everything, then take away what is not wanted, last first
    return [['or', ['m', (1 << n) - 1]]] + \
        [['sub', k] for k in reversed(range(n)) if not mask >> k & 1]


def bfs(world, depth, ops, rec, case_of, cap=None):
    """Breadth-first search over histories; states deduplicated on their
    exact representation (vertex rings).  case_of(hist) makes the case that
    rec.check runs (and which validates the state)."""
    seen = {geo.canon(world.G.empty()): []}
    frontier = [[]]
    transitions = 0
    for d in range(depth):
        nxt = []
        for h in frontier:
            for k in range(len(world.gens)):
                for op in ops:
                    hist = h + [[op, k]]
                    transitions += 1
                    if not rec.check(case_of(hist)):
                        if rec.stop:
                            return seen, transitions
                        continue
                    g, m = world.run(hist)
                    key = geo.canon(g)
                    if key not in seen:
                        seen[key] = hist
                        nxt.append(hist)
        frontier = nxt
        if not frontier:
            break
        if cap and len(seen) > cap:
            rec.count('capped')
            break
    if frontier:
        rec.count('not_fixpoint_layouts')
    else:
        rec.count('fixpoint_layouts')
    return seen, transitions
