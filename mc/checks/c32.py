"""Exact numbers in, exact numbers out; text shows them faithfully."""
import fractions
import itertools
import math
import re

import gmpy2
import numpy as np
from gmpy2 import mpq as Q

PID = 'C32'
LEVEL = 'exploration'
CPU_LIMIT = 30
RULE = ('every value of a bounded family (all p/q with small p, q, huge and '
        'tiny ones, every number class) is converted, and every container '
        'shape up to depth 2 of such values, sets and objects is rendered, '
        'exactly and approximately; the numbers read back from the text must '
        'be the ones put in (to float precision if approximate). Inexact '
        'values must be refused. Distinct = (value, route).')
ASSUMPTIONS = []
NUMS = [Q(a, b) for a in (-7, -3, -1, 0, 1, 2, 5, 12) for b in (1, 2, 3, 7)]
NUMS += [Q(10**30 + 1, 7), Q(1, 10**30), Q(10**25), -Q(10**20, 3)]
HUGE = [Q(10**400), -Q(10**320, 3), Q(1, 10**400)]
SMALL = [Q(0), Q(1, 3), Q(-7, 2), Q(5), Q(10**25), Q(1, 10**30),
         Q(10**400, 7)]


def bounds(tier):
    return dict(numbers=[str(x) for x in NUMS + HUGE])


def items(tier):
    return [['num'], ['bad'], ['fstr'], ['geom'], ['float'], ['tuple']]


def work(item, rec):
    k = item[0]
    if k in ('num', 'float'):
        for i in range(len(NUMS) + (len(HUGE) if k == 'num' else 0)):
            rec.check([k, i])
    elif k == 'bad':
        for i in range(len(bad())):
            rec.check([k, i])
    elif k == 'tuple':
        for n in range(4):
            for m in range(1, 4):
                rec.check([k, n, m])
    else:
        r = range(len(SMALL))
        for n in (0, 1, 2, 3):
            for sel in itertools.product(r, repeat=n):
                shapes = range(8) if k == 'fstr' else range(3)
                for s in shapes:
                    for ap in (0, 1):
                        rec.check([k, list(sel), s, ap])
                if rec.stop:
                    return


def bad():
    return [0.5, 1.0, np.float64(2), '1/2', None, 1j, gmpy2.mpfr('1.5'),
            float('nan')]


def numbers(text):
    out = []
    for t in re.findall(r'-?inf|-?\d+(?:\.\d+)?(?:e[-+]?\d+)?(?:/\d+)?',
                        re.sub(r'Geom1D', '', text)):
        if 'inf' in t:
            out.append(float(t))
        elif '.' in t or 'e' in t:
            out.append(float(t))
        else:
            out.append(Q(t))
    return out


def same(a, b, approx):
    if b in (math.inf, -math.inf):
        return a == b
    if not approx:
        return a == b
    if a in (math.inf, -math.inf):
        return False
    # 1e-320 and less are nothing to a float
    return abs(Q(a) - Q(b)) <= max(abs(Q(b)) / 10**12, Q(1, 10**320))


def run_case(case, rec):
    from plycutter import plytypes as pt
    rec.outcome(case)
    k = case[0]
    if k == 'num':
        v = (NUMS + HUGE)[case[1]]
        vs = [v, fractions.Fraction(int(v.numerator), int(v.denominator))]
        if v.denominator == 1:
            vs += [int(v), gmpy2.mpz(int(v))]
        for x in vs:
            for f in (pt.FractionFromExact, pt.FractionFromExactOrInf):
                r = f(x)
                if r != v or not isinstance(r, pt.FractionClass):
                    return '%s(%r) is %r' % (f.__name__, x, r)
        for inf in (math.inf, -math.inf):
            if pt.FractionFromExactOrInf(inf) != inf:
                return 'infinity is not kept'
            try:
                r = pt.FractionFromExact(inf)
            except Exception:
                continue
            return 'infinity converted to %r' % r
        return None
    if k == 'bad':
        for f in (pt.FractionFromExact, pt.FractionFromExactOrInf):
            try:
                r = f(bad()[case[1]])
            except Exception:
                continue
            return '%s(%r) is %r instead of an error' % (
                f.__name__, bad()[case[1]], r)
        return None
    if k == 'float':
        for x in (float(NUMS[case[1]]), math.pi * float(NUMS[case[1]]),
                  math.nextafter(float(NUMS[case[1]]), 9e99)):
            r = pt.FractionFromFloat(x)
            # the simplest fraction next to this float
            if abs(float(r) - x) > 4e-16 * abs(x) or isinstance(r, float):
                return 'FractionFromFloat(%r) is %r' % (x, r)
        return None
    if k == 'tuple':
        n, m = case[1:]
        a = np.array([[Q(i, j + 2) for j in range(m)] for i in range(n)],
                     object).reshape(n, m)
        want = tuple(tuple(Q(i, j + 2) for j in range(m)) for i in range(n))
        for x in (a, a.tolist(), want):
            r = pt.totuple(x)
            if n and r != want or hash(r) != hash(r):
                return 'totuple(%r) is %r' % (x, r)
        return None
    from plycutter.geometry.geom1d import Geom1D
    sel, shape, ap = case[1:]
    v = [SMALL[i] for i in sel]
    if k == 'fstr':
        if shape == 6 and len(set(v)) != len(v):
            return None
        obj = [v, tuple(v), np.array(v, object), {x: x for x in v},
               [tuple(v), [v]], [np.array(v, object), tuple(v)],
               set(v), [{'k': v}]][shape]
        want = [v, v, v, [y for x in dict.fromkeys(v) for y in (x, x)],
                v + v, v + v, list(set(v)), v][shape]
        if shape == 7:
            want = v
    else:
        ivs = [[v[i], v[i] + 2 + i] for i in range(len(v))]
        g = Geom1D(ivs)
        if shape == 1:
            g = ~g
        want = [x for iv in g.get_intervals() for x in iv]
        obj = g if shape < 2 else [(g,), {'x': g}]
        if shape == 2:
            want = want + want
        # printing a set must not fail either
        str(g), repr(g), '%s' % (g,)
    texts = [pt.fastr(obj), pt.fstr(obj, approx=True)] if ap else \
        [pt.fstr(obj)]
    for text in texts:
        got = numbers(text)
        if len(got) != len(want) or not all(
                same(a, b, ap) for a, b in zip(got, want)):
            return 'rendered %s as %r' % ([str(x) for x in want], text)
    return None
