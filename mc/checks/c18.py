"""Random fingers: every answer of the random source, from every partial
decision of a joint."""
import itertools

import numpy as np
from gmpy2 import mpq as Q

from .. import core, models

PID = 'C18'
LEVEL = 'model_checking'
CPU_LIMIT = 120
RULE = ('stateless search: from every partial decision of a joint (left, '
        'right and middle stretches already given to either side, or ruled '
        'out), single_fingers_random is run once per answer of the random '
        'source (every finger count it can draw x shuffle order x draw '
        'pattern). All still open positions must go to exactly one side; if '
        'a finger count of the right parity fits, the fingers alternate '
        '(also against decided neighbours) and have allowed widths. States '
        '= joint states, transitions = runs.')
ASSUMPTIONS = ['the random source is numpy RandomState (randint, shuffle, '
               'uniform); other methods answer as seeded']
LEN = 34


Real = np.random.RandomState


class Ctl(Real):
    """Answers randint by script and shuffle / uniform by pattern."""
    script, pat, opts = [], 0, []

    def __init__(self, *a, **k):
        Real.__init__(self, 1)
        self.k = 0

    def randint(self, low, high=None, size=None, **kw):
        if size is not None:
            return Real.randint(self, low, high, size, **kw)
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        assert low < high, (low, high)
        i = len(Ctl.opts)
        Ctl.opts.append(high - low)
        return low + (Ctl.script[i] if i < len(Ctl.script) else 0)

    def shuffle(self, x):
        if Ctl.pat % 2:
            x[:] = x[::-1].copy()

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            return Real.uniform(self, low, high, size)
        u = ((0.,), (1 - 2.**-53,), (0., 1 - 2.**-53),
             (.3, .9, .5))[Ctl.pat // 2]
        v = u[self.k % len(u)]
        self.k += 1
        low, high = float(low), float(high)
        return low + (high - low) * v


PATS = (0, 3, 4, 7)
FINGERS = [('3', '5'), ('31/10', '31/10'), ('1', '2'), ('13/2', '7'),
           ('2', '9')]


def items(tier):
    """[finger limits, [[lo, hi, side | 'n'], ..decided stretches], pats]"""
    out = []
    lens = ['2', '3', '5', '8', '10', '13', '16', '18', '20', '21', '26', '30']
    fl = range(len(FINGERS)) if tier == 'thorough' else (0, 1, 3)
    for fi in fl:
        out.append([fi, []])
        for ln in lens:
            if FINGERS[fi][1] == '2' and int(ln) > 10:
                continue
            for a, b in itertools.product((0, 1, 'n'), repeat=2):
                if tier == 'quick' and fi and (a == 'n' or b == 'n'):
                    continue
                out.append([fi, [['0', '4', a],
                                 [str(4 + Q(ln)), str(LEN), b]]
                            if Q(ln) + 4 < LEN else [['0', '4', a]]])
    if tier == 'quick':
        # wide limits: many counts fit
        for ln, a, b in itertools.product(('7', '13'), (0, 1), (0, 1)):
            out.append([4, [['0', '4', a], [str(4 + Q(ln)), str(LEN), b]]])
    for a in (0, 1, 'n'):
        # one stretch in the middle: two open intervals
        out.append([0, [['15', '18', a]]])
        out.append([0, [['15', '18', a], ['18', '22', 0]]])
        out.append([0, [['0', '3', 1], ['15', '18', a]]])
    return out


def bounds(tier):
    return dict(joint_length=LEN, finger_limits=FINGERS,
                states=len(items(tier)), patterns=PATS)


def weight(it):
    open_ = LEN - sum(Q(b) - Q(a) for a, b, _ in it[1])
    return float(open_ / Q(FINGERS[it[0]][0]))


def work(item, rec):
    rec.count('states')
    f = core.seam('plycutter.heuristics', 'single_fingers_random')
    assert f
    stack = [[]]
    while stack and not rec.stop:
        script = stack.pop()
        for pat in PATS:
            rec.check(item + [script, pat])
            rec.count('transitions')
            if rec.stop:
                return
        opts = Ctl.opts
        if len(opts) > len(script):
            for i in range(len(script), len(opts)):
                for v in range(1, opts[i]):
                    stack.append(script + [0] * (i - len(script)) + [v])


_base = {}


def start(decided):
    from plycutter import sheetbuild
    from plycutter.geometry.geom1d import Geom1D
    key = str(decided)
    if key not in _base:
        sp = models.sheetplex(['panels', [0, 4]])
        sb = sheetbuild.create_sheetbuild(sp, models.params())
        inter = list(sp.intersections.values())[0]
        ids = [s.id for s in inter.sides]
        for lo, hi, who in decided:
            v = Geom1D([[off(sb, ids) + Q(lo), off(sb, ids) + Q(hi)]])
            if who == 'n':
                sb = sb.unchoose_interside(ids[0], v)
                sb = sb.unchoose_interside(ids[1], v)
            else:
                sb = sb.choose_interside(ids[who], v)
        _base[key] = sp, ids, sb
    return _base[key]


_off = {}


def off(sb, ids):
    if 'o' not in _off:
        iv = sb.interside_ok[ids[0]].get_intervals()
        assert len(iv) == 1 and iv[0][1] - iv[0][0] == LEN, iv
        _off['o'] = iv[0][0]
    return _off['o']


def run_case(case, rec):
    fi, decided, script, pat = case
    sfr = core.seam('plycutter.heuristics', 'single_fingers_random')
    from plycutter.geometry.geom1d import Geom1D
    sp, ids, sb = start(decided)
    mn, mx = map(Q, FINGERS[fi])
    prm = models.params(min_finger_width=mn, max_finger_width=mx)
    Ctl.script, Ctl.pat, Ctl.opts = script, pat, []

    np.random.RandomState = Ctl
    try:
        res = sfr(sb, prm)
    finally:
        np.random.RandomState = Real
    avail = sb.interside_ok[ids[0]] - sb.interside_chosen[ids[0]]
    new = [res.interside_chosen[i] - sb.interside_chosen[i] for i in ids]
    rec.outcome((fi, decided, str(new)))
    for k in (0, 1):
        if not (sb.interside_chosen[ids[k]]
                - res.interside_chosen[ids[k]]).is_empty():
            return 'an earlier decision is gone'
    if not (new[0] & new[1]).is_empty():
        return 'a position went to both sides'
    tol = Q(1, 10**9)
    if (avail ^ (new[0] | new[1])).measure1d() > tol:
        return 'open positions %s, newly decided %s and %s' % (
            avail, new[0], new[1])
    for lo, hi in avail.get_intervals():
        ln = hi - lo
        part = Geom1D([[lo, hi]])
        near = []
        for iv in ([lo - 2, lo], [hi, hi + 2]):
            w = [(sb.interside_chosen[i] & Geom1D([iv])).measure1d() == 2
                 for i in ids]
            near.append(0 if w[0] else 1 if w[1] else None)
        counts = [n for n in range(1, int(ln / mn) + 2)
                  if n * mn <= ln <= n * mx]
        if None in near:
            pars = (0, 1)
        else:
            pars = (1,) if near[0] == near[1] else (0,)
        fits = [any(n % 2 == p for n in counts) for p in pars]
        f = []
        for k in (0, 1):
            for a, b in (new[k] & part).get_intervals():
                f.append((a, b, k))
        f.sort()
        single = len(f) == 1
        if single and not all(fits):
            continue        # documented way out: all of it to one side
        if not any(fits):
            return 'no finger count fits %s, but it was cut into %d' % (
                float(ln), len(f))
        for i, (a, b, k) in enumerate(f):
            if not mn - tol <= b - a <= mx + tol:
                return 'finger %s..%s has width %s outside [%s, %s]' % (
                    float(a), float(b), float(b - a), mn, mx)
            if i and (f[i - 1][2] == k or f[i - 1][1] != a):
                return 'fingers do not alternate: %s' % [
                    (float(x), float(y), z) for x, y, z in f]
        for at, n in ((0, near[0]), (-1, near[1])):
            if n is not None and f[at][2] == n:
                return 'the finger at the end is merged with its decided ' \
                    'neighbour on side %d: %s' % (n, [
                        (float(x), float(y), z) for x, y, z in f])
    return None
