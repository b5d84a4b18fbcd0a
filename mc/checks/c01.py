"""1D interval sets obey exact set algebra."""
from .. import g1

PID = 'C01'
LEVEL = 'model_checking'
RULE = ('states = all subsets of the k+1 cells cut out of the line by k '
        'points; transitions = every binary operation on every ordered pair '
        'of states (objects built two ways), every unary one, and every '
        'two-step expression over a smaller alphabet; each result is compared '
        'with a bit-set model (intervals, measure, membership of every cell '
        'and cut point). Distinct = (cut set, resulting subset, operation).')
ASSUMPTIONS = ['endpoints are exact numbers from the listed cut sets; by '
               'symmetry of the comparison-only code other exact values '
               'behave alike']
OPS = ('or', 'and', 'sub', 'xor')


def bounds(tier):
    return dict(cut_sets=list(g1.CUTS), combs='periodic sets of up to 20 '
                'pieces, pairs', k=k_of(tier), k2=k2_of(tier),
                infinite_cells=True)


def k_of(tier):
    return 7 if tier == 'quick' else 8


def k2_of(tier):
    return 3 if tier == 'quick' else 4


def items(tier):
    out = []
    k = k_of(tier)
    out.append(['long', 'long40'])
    for cs in g1.CUTS:
        if cs == 'long40':
            continue
        step = 16 if tier == 'quick' else 16
        for lo in range(0, 1 << (k + 1), step):
            out.append(['pair', cs, k, lo, lo + step])
        k2 = k2_of(tier)
        for a in range(0, 1 << (k2 + 1), 4):
            out.append(['two', cs, k2, a, a + 4])
    return out


def build(cuts, mask, how):
    from plycutter.geometry.geom1d import Geom1D
    cells = [c for i, c in enumerate(g1.cells(cuts)) if mask >> i & 1]
    if how == 'max':
        return Geom1D(g1.intervals(cuts, mask))
    if how == 'cells':    # one interval per cell, from the right, as lists
        return Geom1D([list(c) for c in reversed(cells)])
    g = Geom1D.empty()
    for c in cells:
        g = Geom1D([c]) | g
    return g


def model(op, a, b, full):
    return {'or': a | b, 'and': a & b, 'sub': a & ~b & full,
            'xor': a ^ b}[op]


def apply(op, x, y):
    return {'or': lambda: x | y, 'and': lambda: x & y, 'sub': lambda: x - y,
            'xor': lambda: x ^ y}[op]()


_cache = {}


def state(cs, k, mask, how):
    key = (cs, k, mask, how)
    if key not in _cache:
        if len(_cache) > 50000:
            _cache.clear()
        _cache[key] = build(g1.CUTS[cs][:k], mask, how)
    return _cache[key]


def work(item, rec):
    if item[0] == 'long':
        combs(item[1], rec)
        return
    kind, cs, k, lo, hi = item
    n = 1 << (k + 1)
    if kind == 'pair':
        for a in range(lo, hi):
            rec.count('states')
            for how in ('max', 'cells', 'fold'):
                rec.check({'cs': cs, 'k': k, 'e': [a, how]})
            rec.check({'cs': cs, 'k': k, 'e': ['inv', [a, 'cells']]})
            rec.check({'cs': cs, 'k': k, 'e': ['inv', ['inv', [a, 'max']]]})
            rec.count('transitions', 5)
            for b in range(n):
                for op in OPS:
                    rec.count('transitions')
                    rec.check({'cs': cs, 'k': k, 'e': [
                        op, [a, 'max'], [b, 'cells']]})
                    if rec.stop:
                        return
    else:
        for a in range(lo, hi):
            for b in range(n):
                for o1 in OPS:
                    for c in range(n):
                        for o2 in OPS:
                            rec.count('transitions')
                            rec.check({'cs': cs, 'k': k, 'e': [
                                o2, [o1, [a, 'max'], [b, 'fold']],
                                [c, 'cells']]})
                            if rec.stop:
                                return
                    rec.check({'cs': cs, 'k': k, 'e': [
                        'inv', [o1, ['inv', [a, 'max']],
                                ['inv', [b, 'max']]]]})


def combs(cs, rec):
    """Sets of up to 20 pieces: every pair of periodic combs."""
    k = 40
    masks = {0, (1 << (k + 1)) - 1}
    for period in range(2, 8):
        for on in range(1, period):
            for phase in range(period):
                masks.add(sum(1 << i for i in range(k + 1)
                              if (i + phase) % period < on))
    masks = sorted(masks)
    for a in masks[::1]:
        rec.check({'cs': cs, 'k': k, 'e': [a, 'cells']})
        rec.check({'cs': cs, 'k': k, 'e': ['inv', [a, 'max']]})
    for i, a in enumerate(masks):
        for b in masks[i % 3::3]:
            for op in OPS:
                rec.count('transitions')
                rec.check({'cs': cs, 'k': k, 'e': [
                    op, [a, 'max'], [b, 'cells']]})
                if rec.stop:
                    return


def ev(case, e):
    """-> (Geom1D, mask); checks that operands are not modified."""
    cs, k = case['cs'], case['k']
    full = (1 << (k + 1)) - 1
    if isinstance(e[0], int):
        return state(cs, k, e[0], e[1]), e[0]
    if e[0] == 'inv':
        g, m = ev(case, e[1])
        s = g1.snapshot(g)
        r = ~g
        if g1.snapshot(g) != s:
            raise AssertionError('~ modified its operand')
        return r, full & ~m
    x, mx = ev(case, e[1])
    y, my = ev(case, e[2])
    sx, sy = g1.snapshot(x), g1.snapshot(y)
    r = apply(e[0], x, y)
    if g1.snapshot(x) != sx or g1.snapshot(y) != sy:
        raise AssertionError('%s modified an operand' % e[0])
    return r, model(e[0], mx, my, full)


def run_case(case, rec):
    cuts = g1.CUTS[case['cs']][:case['k']]
    g, m = ev(case, case['e'])
    rec.outcome((case['cs'], m, case['e'][0]))
    return g1.problem(g, cuts, m)
