"""A 1D set built from any list of intervals is their union, canonically."""
import fractions
import itertools

from gmpy2 import mpq as Q, mpz

from .. import g1

PID = 'C02'
LEVEL = 'exploration'
RULE = ('all ordered lists of up to N intervals (possibly empty, duplicated, '
        'nested, touching, unbounded) with ends from a small set, in several '
        'exact number types, are given to the real constructor and compared '
        'with the bit-set model: interval list, membership, measure, pieces, '
        'filter. Distinct = resulting subset of cells x list length.')
ASSUMPTIONS = ['longer lists behave like the fold of shorter ones']

SETS = {
    'plain': [-g1.INF, Q(-1), Q(0), Q(1, 3), Q(1), Q(7, 2), g1.INF],
    # neighbouring ends far closer, and ranges far wider, than a float tells
    'fine': [-g1.INF, Q(-10 ** 30), Q(0), Q(1, 10 ** 30), Q(1, 3),
             Q(1, 3) + Q(1, 10 ** 12), g1.INF],
    'far': [-g1.INF, Q(10 ** 20), Q(10 ** 20) + Q(1, 7), Q(10 ** 20) + 1,
            Q(10 ** 20) + 1 + Q(1, 10 ** 9), Q(10 ** 40), g1.INF],
    # beyond what a float can hold
    'beyond': [-g1.INF, Q(-10 ** 400), Q(0), Q(1, 10 ** 400), Q(10 ** 330),
               Q(10 ** 400), g1.INF],
}
TYPES = {
    'mpq': lambda v: v,
    'fraction': lambda v: v if abs(v) == g1.INF else
    fractions.Fraction(int(v.numerator), int(v.denominator)),
    'int': lambda v: int(v) if abs(v) != g1.INF and v == int(v) else v,
    'mpz': lambda v: mpz(int(v)) if abs(v) != g1.INF and v == int(v) else v,
}


def bounds(tier):
    return dict(ends={k: [str(e) for e in v] for k, v in SETS.items()}, max_intervals=n_of(tier),
                number_types=list(TYPES))


def n_of(tier):
    return 3 if tier == 'quick' else 4


def all_ivs():
    n = 7
    return [(i, j) for i in range(n) for j in range(i, n)]


def items(tier):
    ivs = all_ivs()
    out = [['short', t, 'plain'] for t in TYPES]
    for c in ('fine', 'far', 'beyond'):
        for i in range(len(ivs)):
            out.append(['from', 'fraction' if i % 4 == 1 else 'mpq', i, c])
    if tier == 'quick':
        for t in TYPES:
            for i in range(len(ivs)):
                out.append(['from', t, i, 'plain'])
    else:
        for t in TYPES:
            for i in range(len(ivs)):
                out.append(['from', t, i, 'plain'])
        for i in range(len(ivs)):
            for j in range(len(ivs)):
                out.append(['from2', 'mpq', i, j])
    return out


def work(item, rec):
    ivs = all_ivs()
    t = item[1]
    cs = item[-1] if item[0] != 'from2' else 'plain'
    if item[0] == 'short':
        for n in (0, 1, 2):
            for c in itertools.product(range(len(ivs)), repeat=n):
                for k in (0, 1, 2, 3):
                    rec.check({'t': t, 'c': cs, 'ivs': [list(ivs[i]) for i in c],
                               'tuples': k})
                if rec.stop:
                    return
    elif item[0] == 'from':
        for c in itertools.product(range(len(ivs)), repeat=2):
            rec.check({'t': t, 'c': cs, 'ivs': [list(ivs[i])
                                       for i in (item[2],) + c],
                       'tuples': (c[0] + c[1]) % 4})
            if rec.stop:
                return
    else:
        for c in itertools.product(range(len(ivs)), repeat=2):
            rec.check({'t': t, 'c': cs, 'ivs': [list(ivs[i])
                                       for i in (item[2], item[3]) + c],
                       'tuples': 0})
            if rec.stop:
                return


def run_case(case, rec):
    from plycutter.geometry.geom1d import Geom1D
    conv = TYPES[case['t']]
    ENDS = SETS[case.get('c', 'plain')]
    cuts = [e for e in ENDS if abs(e) != g1.INF]
    # all lists, all tuples, or alternating
    mk = [(list, list), (tuple, tuple), (list, tuple),
          (tuple, list)][case['tuples']]
    arg = [mk[n % 2](conv(ENDS[i]) for i in iv)
           for n, iv in enumerate(case['ivs'])]
    keep = [tuple(iv) for iv in arg]
    g = Geom1D(arg)
    if [tuple(iv) for iv in arg] != keep:
        return 'the constructor modified its argument'
    mask = g1.from_intervals([(ENDS[i], ENDS[j]) for i, j in case['ivs']
                              if i != j], cuts)
    rec.outcome((case.get('c'), mask, len(arg)))
    p = g1.problem(g, cuts, mask)
    if p:
        return p
    want = g1.intervals(cuts, mask)
    pieces = [g1.snapshot(q) for q in g.disjoint_pieces()]
    if sorted(pieces) != sorted((iv,) for iv in want):
        return 'disjoint_pieces() %s' % (pieces,)
    u = Geom1D.empty()
    for q in g.disjoint_pieces():
        u = u | q
    if g1.snapshot(u) != tuple(want):
        return 'the union of the pieces is not the set'
    for pos in ENDS[1:-1]:
        f = g.filter(lambda lo, hi: lo <= pos <= hi)
        w = tuple(iv for iv in want if iv[0] <= pos <= iv[1])
        if g1.snapshot(f) != w:
            return 'filter(%s) gives %s' % (pos, g1.snapshot(f))
    if g1.snapshot(g) != tuple(want):
        return 'filter or disjoint_pieces modified the set'
    # number type does not matter to later operations
    h = Geom1D([iv for iv in want])
    if not (g ^ h).is_empty():
        return 'differs from the same set built canonically'
    return None
