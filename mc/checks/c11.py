"""Fractional angles order directions exactly like true angles."""
import itertools

from gmpy2 import mpq as Q

from .. import core

PID = 'C11'
LEVEL = 'exploration'
RULE = ('every pair of vectors of a lattice box plus nearly parallel pairs '
        '(differences of 1e-18): order, equality, scaling, quarter and half '
        'turns, and the inverse map, against exact half-plane and cross '
        'product comparisons; all 3-subsets of spokes round a vertex for '
        'cyclic order. Distinct = vector.')
ASSUMPTIONS = []


def bounds(tier):
    return dict(box=box(tier), near_parallel='1e-18 apart, all 16 '
                'half-octants')


def box(tier):
    return 5 if tier == 'quick' else 9


def vecs(n):
    out = [(Q(x), Q(y)) for x in range(-n, n + 1) for y in range(-n, n + 1)
           if x or y]
    e = Q(1, 10 ** 18)
    for x, y in itertools.product((-1, 0, 1), repeat=2):
        if x or y:
            for dx, dy in ((e, 0), (-e, 0), (0, e), (0, -e)):
                out.append((x + dx, y + dy))
    return out


def items(tier):
    n = box(tier)
    return [['v', n, i] for i in range(len(vecs(n)))]


def work(item, rec):
    vs = vecs(item[1])
    for j in range(len(vs)):
        rec.check({'n': item[1], 'a': item[2], 'b': j})
        if rec.stop:
            return


def sector(v):
    """Clockwise from +x: 0 for the open-closed lower right..., comparing
    exactly: (half, cross-comparable)."""
    # start direction is (1, 0); clockwise means turning towards -y
    return 0 if (v[1] < 0 or (v[1] == 0 and v[0] > 0)) else 1


def cmp(a, b):
    """-1, 0, 1: order of the clockwise angles from +x."""
    if sector(a) != sector(b):
        return -1 if sector(a) < sector(b) else 1
    c = a[0] * b[1] - a[1] * b[0]
    return -1 if c < 0 else (1 if c > 0 else 0)


def run_case(case, rec):
    f = core.seam('plycutter.geometry.impl2d.frangle2d', 'vector_frangle')
    inv = core.seam('plycutter.geometry.impl2d.frangle2d',
                    'frangle_unit_square_vector')
    vs = vecs(case['n'])
    a, b = vs[case['a']], vs[case['b']]
    fa, fb = f(a), f(b)
    rec.outcome((case['n'], case['a']))
    want = cmp(a, b)
    got = (fa > fb) - (fa < fb)
    if got != want:
        return 'directions %s (%s) and %s (%s) compare %d, expected %d' % (
            a, fa, b, fb, got, want)
    if not 0 <= fa < 8:
        return 'frangle %s of %s outside [0, 8)' % (fa, a)
    if case['a'] == case['b']:
        for k in (Q(2), Q(1, 7), Q(10 ** 20)):
            if f((a[0] * k, a[1] * k)) != fa:
                return 'scaling changes the frangle of %s' % (a,)
        r = a
        for turn in range(1, 4):
            r = (r[1], -r[0])
            if (f(r) - fa) % 8 != 2 * turn:
                return 'a turn by %d quarters changes the frangle by %s' % (
                    turn, f(r) - fa)
        u = inv(fa)
        if u[0] * a[1] != u[1] * a[0] or u[0] * a[0] + u[1] * a[1] <= 0:
            return 'inverse map of %s gives %s' % (a, u)
        if max(abs(u[0]), abs(u[1])) != 1:
            return 'inverse map leaves the unit square: %s' % (u,)
        for d in (-8, 8, 16):
            if tuple(inv(fa + d)) != tuple(u):
                return 'the inverse map is not periodic at %s' % fa
    return None
