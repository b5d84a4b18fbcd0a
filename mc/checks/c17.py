"""Random lengths within limits, for every answer of the random source."""
import itertools

import numpy as np
from gmpy2 import mpq as Q

from .. import core

PID = 'C17'
LEVEL = 'exploration'
CPU_LIMIT = 30
RULE = ('for each count, limits and total, every answer of the random source '
        '(all orders of the shuffle x all combinations of lowest / middle / '
        'highest uniform draw, computed in floating point as numpy does) is '
        'played through the real random_min_max; the result must be '
        'contiguous from 0, sum exactly to the total and respect both '
        'limits. Distinct = (n, limits, total, order, draws).')
ASSUMPTIONS = ['uniform(low, high) returns low + (high - low) * u with u in '
               '{0, 1/2, 1 - 2^-53}']


def make_rng(order, draws):
    class Rng(np.random.RandomState):
        def __init__(self):
            np.random.RandomState.__init__(self, 1)
            self.k = 0

        def shuffle(self, x):
            x[:] = [x[i] for i in order]

        def permutation(self, x):
            x = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
            return np.array([x[i] for i in order])

        def uniform(self, low=0.0, high=1.0, size=None):
            if size is not None:
                return np.random.RandomState.uniform(self, low, high, size)
            u = (0., .5, 1 - 2.**-53)[draws[self.k % len(draws)]]
            self.k += 1
            low, high = float(low), float(high)
            return low + (high - low) * u
    return Rng()


LIMITS = [('3', '5'), ('31/10', '31/10'), ('1', '2'), ('10/3', '17/5'),
          ('1/3', '7'), ('3', '3'), ('20', '30')]


def totals(n, mn, mx):
    mn, mx = Q(mn), Q(mx)
    e = Q(1, 10**9)
    out = {n * mn, n * mx, (n * mn + n * mx) / 2,
           (n - 1) * mn + mx, mn + (n - 1) * mx,
           n * mn + e * n, n * mx - e * n}
    return sorted(t for t in out if n * mn <= t <= n * mx)


def items(tier):
    out = []
    top = 5 if tier == 'quick' else 6
    for n in range(1, top + 1):
        for li in range(len(LIMITS)):
            for t in totals(n, *LIMITS[li]):
                out.append([n, li, str(t)])
    for n in (8, 11, 12, 13, 20):
        for li in range(len(LIMITS)):
            for t in totals(n, *LIMITS[li]):
                out.append([n, li, str(t)])
    return out


def bounds(tier):
    return dict(n='1..%d, 8, 11, 12, 13, 20' % (
        5 if tier == 'quick' else 6), limits=LIMITS,
                totals='n*min, n*max, middle, one extreme, 1e-9 inside')


def weight(it):
    return 6 ** min(it[0], 5)


def work(item, rec):
    n, li, t = item
    if n > 6:       # many fingers: runs of extreme draws
        for o in (1, n - 1, n // 2):
            order = list(range(o, n)) + list(range(o))
            for k in range(n + 1):
                for a, b in ((2, 0), (0, 2), (1, 2), (1, 0)):
                    rec.check([n, li, t, order[::-1] if k % 2 else order,
                               [a] * k + [b] * (n - k)])
                    if rec.stop:
                        return
        return
    for order in itertools.permutations(range(n)):
        if n <= 4:
            dr = itertools.product(range(3), repeat=n)
        elif n == 5:
            dr = itertools.product((0, 2), repeat=n)
        else:
            dr = [(0,), (1,), (2,), (0, 2), (2, 0)]
        for d in dr:
            rec.check([n, li, t, list(order), list(d)])
            if rec.stop:
                return


def run_case(case, rec):
    n, li, t, order, draws = case
    f = core.seam('plycutter.heuristics', 'random_min_max')
    mn, mx = map(Q, LIMITS[li])
    t = Q(t)
    res = f(n, mn, mx, t, make_rng(order, draws))
    rec.outcome(case)
    spans = [(Q(a), Q(b)) for a, b in res]
    if len(spans) != n:
        return '%d spans instead of %d' % (len(spans), n)
    cur = Q(0)
    tol = Q(1, 10**12)
    for a, b in spans:
        if a != cur:
            return 'spans are not contiguous: %s' % spans
        cur = b
        if not mn - tol <= b - a <= mx + tol:
            return 'span of length %s outside [%s, %s]' % (
                float(b - a), mn, mx)
    if abs(cur - t) > tol:
        return 'lengths sum to %s, not %s' % (float(cur), t)
    return None
