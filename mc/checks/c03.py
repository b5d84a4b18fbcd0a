"""Growing and shrinking a 1D set is exact Minkowski sum / erosion."""
from gmpy2 import mpq as Q

from .. import g1

PID = 'C03'
LEVEL = 'exploration'
RULE = ('all subsets of the cells cut out by k points x all (pairs of) '
        'amounts, positive, zero and negative, including amounts equal to '
        'half a gap or half an interval; compared with an independent model '
        'of dilation/erosion, and monotonicity, opening/closing and '
        'additivity laws on every state. Distinct = (subset, amount).')
ASSUMPTIONS = []

CUTS = {
    'int': [Q(i) for i in range(8)],
    'uneven': [Q(-5, 2), Q(0), Q(1, 3), Q(2), Q(5, 2), Q(7), Q(22, 3), Q(9)],
    'tiny': [Q(1) + Q(i * i, 10 ** 12) for i in range(8)],
    # beyond what a float can hold
    'beyond': [Q(-10 ** 400), Q(0), Q(1, 10 ** 400), Q(1), Q(10 ** 310),
               Q(10 ** 310) + 1, Q(10 ** 400), Q(3 * 10 ** 400)],
}
AM = {'int': [Q(0), Q(1, 4), Q(1, 2), Q(3, 4), Q(1), Q(3, 2), Q(5)],
      'uneven': [Q(0), Q(1, 6), Q(1, 4), Q(5, 6), Q(1), Q(9, 4), Q(100)],
      'tiny': [Q(0), Q(1, 2 * 10 ** 12), Q(3, 2 * 10 ** 12),
               Q(3, 10 ** 12), Q(4, 10 ** 12), Q(1)],
      'beyond': [Q(0), Q(1, 2 * 10 ** 400), Q(1, 2), Q(1), Q(10 ** 310, 2),
                 Q(10 ** 400), Q(10 ** 500)]}


def bounds(tier):
    return dict(cut_sets=list(CUTS), k=k_of(tier),
                amounts={k: [str(a) for a in v] for k, v in AM.items()})


def k_of(tier):
    return 7 if tier == 'quick' else 8


def items(tier):
    k = k_of(tier)
    return [['b', cs, k, lo, lo + 8] for cs in CUTS
            for lo in range(0, 1 << (k + 1), 8)]


def amounts(cs):
    a = AM[cs]
    return [x for x in a] + [-x for x in a[1:]]


def work(item, rec):
    _, cs, k, lo, hi = item
    am = amounts(cs)
    for m in range(lo, hi):
        for i in range(len(am)):
            rec.check({'cs': cs, 'k': k, 'm': m, 'a': [i]})
            for j in range(len(am)):
                rec.check({'cs': cs, 'k': k, 'm': m, 'a': [i, j]})
            if rec.stop:
                return


def dilate(ivs, a):
    """Model: closed-form on a sorted list of disjoint intervals."""
    out = []
    for lo, hi in ivs:
        lo2 = lo if abs(lo) == g1.INF else lo - a
        hi2 = hi if abs(hi) == g1.INF else hi + a
        if hi2 <= lo2:
            continue
        if out and lo2 <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], hi2))
        else:
            out.append((lo2, hi2))
    return out


def run_case(case, rec):
    from plycutter.geometry.geom1d import Geom1D
    cuts = CUTS[case['cs']][:case['k']]
    am = amounts(case['cs'])
    ivs = g1.intervals(cuts, case['m'])
    g = Geom1D(ivs)
    want = ivs
    seq = [am[i] for i in case['a']]
    for a in seq:
        before = g1.snapshot(g)
        # whole amounts may also be given as plain integers
        h = g.buffer(int(a) if a == int(a) else a)
        if g1.snapshot(g) != before:
            return 'buffer modified its operand'
        want = dilate(want, a)
        if list(g1.snapshot(h)) != want:
            return 'buffer(%s) of %s gives %s' % (
                a, [(str(x), str(y)) for x, y in before],
                [(str(x), str(y)) for x, y in g1.snapshot(h)])
        if a >= 0 and not (g - h).is_empty():
            return 'growing lost points'
        if a <= 0 and not (h - g).is_empty():
            return 'shrinking added points'
        g = h
    rec.outcome((case['cs'], case['m'], tuple(case['a'])))
    return None
