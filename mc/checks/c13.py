"""Exactness: results are rational, inexact input is rejected."""
import fractions
import itertools
import math
from decimal import Decimal

import numpy as np
from gmpy2 import mpq as Q, mpz, mpfr

from .. import geo, layouts
from ..g2x import World

PID = 'C13'
LEVEL = 'exploration'
RULE = ('every place an API takes a number x every number type, exact and '
        'inexact: exact ones give the exact value, inexact ones raise; and '
        'every binary operation, buffer and projection over the overlapping '
        'layouts in embeddings whose intersection points need large '
        'denominators: every coordinate of every result is a rational, and '
        'intersection vertices satisfy both line equations exactly. '
        'Distinct = (place, type) or (layout, embedding, operation).')
ASSUMPTIONS = []

EXACT = {
    'int': lambda q: int(q) if q.denominator == 1 else None,
    'mpz': lambda q: mpz(int(q)) if q.denominator == 1 else None,
    'mpq': lambda q: q,
    'Fraction': lambda q: fractions.Fraction(int(q.numerator),
                                             int(q.denominator)),
}
INEXACT = {
    'float': lambda q: float(q),
    'float64': lambda q: np.float64(float(q)),
    'float32': lambda q: np.float32(float(q)),
    'mpfr': lambda q: mpfr(float(q)),
    'Decimal': lambda q: Decimal(float(q)),
    'str': lambda q: str(q),
    'nan': lambda q: math.nan,
    'complex': lambda q: complex(float(q)),
}
VALUES = [Q(2), Q(5, 2), Q(1, 3), Q(-7, 4), Q(0)]
PLACES = ['g1.lo', 'g1.hi', 'g1.buffer', 'g2.point', 'g2.buffer',
          'interside', 'g1.second'] + ['g2.point.%d' % i for i in range(8)]


def bounds(tier):
    return dict(places=PLACES, exact=list(EXACT), inexact=list(INEXACT),
                values=[str(v) for v in VALUES])


def items(tier):
    out = [['types', p] for p in PLACES]
    for l in layouts.OVERLAPS:
        for e in layouts.EMB:
            out.append(['ops', l, e])
    return out


def work(item, rec):
    if item[0] == 'types':
        for v in range(len(VALUES)):
            for t in list(EXACT) + list(INEXACT):
                rec.check({'p': item[1], 't': t, 'v': v})
    else:
        l, e = item[1:]
        n = len(layouts.OVERLAPS[l])
        for a in range(n):
            for b in range(n):
                if a < b:
                    for op in ('or', 'and', 'sub'):
                        rec.check({'l': l, 'e': e, 'o': [op, a, b]})
                elif a == b:
                    rec.check({'l': l, 'e': e, 'o': ['buf', a, a]})


def rational(v):
    return type(v) is type(Q(1, 2))


def rational_geom(g):
    for p in g.polygons():
        for r in [p.exterior()] + list(p.holes()):
            for v in r:
                for c in v:
                    if not rational(c):
                        return 'coordinate %r is a %s' % (c, type(c))
    a = g.area()
    if not (rational(a) or a == 0 and type(a) in (int, type(mpz(0)))):
        return 'area is a %s' % type(a)
    return None


def use(place, x, q):
    """Returns (value got back, value expected)."""
    from plycutter.geometry.geom1d import Geom1D
    from plycutter.geometry.geom2d import Geom2D
    if place == 'g1.lo':
        g = Geom1D([[x, Q(50)]])
        return g.get_intervals()[0][0], q
    if place == 'g1.second':
        g = Geom1D([[Q(-90), Q(-80)], [Q(-70), Q(-60)], [x, Q(50)]])
        return g.get_intervals()[2][0], q
    if place.startswith('g2.point.'):
        # one coordinate of one vertex only
        v = [[Q(-50), Q(-50)], [Q(50), Q(-50)], [Q(50), Q(50)],
             [Q(-50), Q(50)]]
        i = int(place[9:])
        v[i // 2][i % 2] = x
        g = Geom2D.polygon([tuple(p) for p in v], reorient=True)
        got = {c for p in g.exterior() for c in p} - {Q(50), Q(-50)}
        return (got.pop() if len(got) == 1 else got), q
    if place == 'g1.hi':
        g = Geom1D([[Q(-50), x]])
        return g.get_intervals()[0][1], q
    if place == 'g1.buffer':
        g = Geom1D([[Q(-50), Q(50)]]).buffer(x)
        return g.get_intervals()[0][1], 50 + q
    if place == 'g2.point':
        g = Geom2D.polygon([(x, x), (x, Q(50)), (Q(50), Q(50)),
                            (Q(50), x)], reorient=True)
        return min(p[0] for p in g.exterior()), q
    if place == 'g2.buffer':
        # growing by b moves an axis-parallel edge by the brush's extent,
        # which is proportional to b
        g = Geom2D.rectangle(Q(-50), Q(-50), Q(50), Q(50))
        if q == 0:
            return g.buffer(x).area(), Q(10000)
        ext = max(p[0] for p in g.buffer(Q(abs(q))).exterior()) - 50
        h = g.buffer(x)
        return max(p[0] for p in h.exterior()), 50 + (ext if q > 0
                                                      else -ext)
    # a joint section given as an interval becomes an exact rectangle
    from plycutter.sheetplex import InterSide
    s = InterSide(id=('i', 's'), intersection='i', idx=0, sheet='s',
                  direction=np.array([Q(1), Q(0)], object),
                  origin_offset=Q(0),
                  normal=np.array([Q(0), Q(1)], object),
                  min_normal_offset=Q(0), max_normal_offset=Q(3))
    g = s.make_fingers(Geom1D([[x, Q(50)]]))
    return min(p[0] for p in g.exterior()), q


def run_case(case, rec):
    if 'p' in case:
        q, t = VALUES[case['v']], case['t']
        rec.outcome((case['p'], t, case['v']))
        if t in EXACT:
            x = EXACT[t](q)
            if x is None:
                return None
            if case['p'].startswith('g2.point') and t == 'Fraction':
                return None    # documented types: rationals of this package
            got, want = use(case['p'], x, q)
            if got != want:
                return '%s %s comes back as %s' % (t, x, got)
            if not rational(got):
                return '%s comes back as a %s' % (t, type(got))
            return None
        x = INEXACT[t](q)
        if q.denominator == 1 and t not in ('nan', 'str'):
            return None        # whole numbers are exact in any type
        try:
            got, _ = use(case['p'], x, q)
        except Exception:
            return None
        return 'inexact %s %r is silently accepted' % (t, x)
    w = World.get(case['l'], case['e'])
    op, a, b = case['o']
    rec.outcome((case['l'], case['e'], op, a, b))
    A, B = w.gens[a], w.gens[b]
    if op == 'buf':
        from plycutter.geometry.geom1d import Geom1D
        for r in (Q(1, 3), Q(-1, 7)):
            p = rational_geom(A.buffer(r))
            if p:
                return p
        vec = np.array([Q(3, 7), Q(-2, 5)], object)
        g = A.project_to_1d(vec, Q(1, 11))
        ring = w.rings[a]
        ds = [p[0] * vec[0] + p[1] * vec[1] + Q(1, 11) for p in ring]
        if [tuple(i) for i in g.get_intervals()] != [(min(ds), max(ds))]:
            return 'projection %s, expected %s..%s' % (g, min(ds), max(ds))
        if not all(rational(v) for i in g.get_intervals() for v in i):
            return 'projection is not rational'
        return None
    g = {'or': lambda: A | B, 'and': lambda: A & B, 'sub': lambda: A - B}[
        op]()
    p = rational_geom(g)
    if p:
        return p
    p = geo.ring_problem(w.dec, g)
    if p:
        return p
    vs = {geo.pt(v) for r in (w.rings[a], w.rings[b]) for v in r}
    es = [e for k in (a, b) for e in geo.edges([geo.pt(v)
                                                for v in w.rings[k]])]
    for r in geo.rings_of(g):
        for v in r:
            if v not in vs and sum(geo.cross(e[0], e[1], v) == 0
                                   for e in es) < 2:
                return 'vertex %s is not exactly on two input lines' % (
                    geo.fl(v),)
    return None
