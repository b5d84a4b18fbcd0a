"""Pictures of sets and builds show exactly what is there."""
import itertools

import numpy as np
from gmpy2 import mpq as Q

from .. import core, geo, layouts, models
from ..g2x import World

PID = 'C33'
LEVEL = 'exploration'
CPU_LIMIT = 120
RULE = ('every subset of the atoms of partition layouts and every pair '
        'expression over overlapping layouts (holes, islands, pieces that '
        'touch at corners, nothing) is drawn, as patch, onto axes given, and '
        'by show2d: the region filled - by the nonzero and by the even-odd '
        'rule - must be the set at a sample point of every cell of the '
        'layout and outside, every curve closed and every boundary of the '
        'set stroked once; exactly one patch is added, none for the empty '
        'set; colour, transparency, label and line width are those asked '
        'for. For every stage of the pipeline on every model the picture of '
        'every sheet shows the allowed and the chosen material and for every '
        'joint side its chosen and its open positions; a run asked to show its '
        'stages shows every sheet in each of them and gives the same result '
        'as without. Distinct = (layout, '
        'set) or (model, stage, sheet).')
ASSUMPTIONS = ['matplotlib fills a path by the nonzero rule; sample points '
               'lie 1e-6 or more away from every edge']
PART = ('sq32', 'pin', 'brick', 'tri12', 'dia', 'sq33')
OVER = ('venn3', 'nest', 'isles', 'nonconv', 'comb', 'touch', 'hexagram')
EMBS = ('id', 'rot', 'neg')
STYLE = [dict(), dict(color='green', alpha=0.25),
         dict(color='#123456', linewidth=2, label='a part')]


def run_models(tier):
    out = ['T', 'X', 'L2', 'window', ['panels', [0, 2, 4]]]
    if tier == 'thorough':
        out += ['H', 'gap', 'off', 'corner3', 'L10', 'notch', 'lid', 'TT',
                'Tbox', ['panels', [0, 1, 2, 3]], ['cup', 'tri'],
                ['cup', 'hex']]
    return out


def bounds(tier):
    return dict(partitions=PART, overlaps=OVER, embeddings=EMBS,
                models=run_models(tier), styles=3)


def items(tier):
    out = []
    for l in PART:
        n = len(layouts.PARTITIONS[l])
        for k in range(1 << n):
            if tier == 'thorough' or n < 9 or k % 3 == 0:
                out.append(['m', l, k])
    for l in OVER:
        n = min(len(layouts.OVERLAPS[l]), 4 if tier == 'quick' else 5)
        for a, b in itertools.permutations(range(n), 2):
            for c in range(n):
                out.append(['x', l, a, b, c])
    return [out[i::32] for i in range(32)] + [
        [['model', m]] for m in run_models(tier)] + [
        [['stages', m]] for m in run_models(tier) + [
            ['panels', [0, 1, 2, 4, 5]]]]


def weight(it):
    return 1000 if it[0][0] in ('model', 'stages') else len(it)


def work(item, rec):
    for n, it in enumerate(item):
        if it[0] in ('model', 'stages'):
            rec.check(it)
        else:
            rec.check(it + [EMBS[n % 3], n % 3])
        if rec.stop:
            return


_axes = []


def axes():
    if not _axes:
        from matplotlib.figure import Figure
        _axes.append(Figure().add_subplot())
    _axes[0].clear()
    return _axes[0]


def loops(patch):
    """The closed curves of a patch: lists of (x, y), first one not repeated;
    or a message."""
    path = patch.get_path()
    v = np.asarray(path.vertices, float)
    codes = path.codes
    if codes is None:
        codes = [path.MOVETO] + [path.LINETO] * (len(v) - 1)
    if not np.all(np.isfinite(v)):
        return 'a coordinate is not finite'
    out = []
    for p, c in zip(v.tolist(), codes):
        if c == path.MOVETO:
            out.append([tuple(p)])
        elif c == path.LINETO:
            out[-1].append(tuple(p))
        elif c == path.CLOSEPOLY:
            if out[-1][-1] != out[-1][0]:
                out[-1].append(out[-1][0])
        elif c != path.STOP:
            return 'a curve that is not a polygon'
    for r in out:
        if len(r) < 4 or r[0] != r[-1]:
            return 'a curve is not closed: %s' % r[:6]
    return [r[:-1] for r in out]


def winding(rings, p):
    """(winding number, crossings) of the rings around p."""
    w = n = 0
    for r in rings:
        for a, b in zip(r, r[1:] + r[:1]):
            if (a[1] > p[1]) != (b[1] > p[1]):
                x = a[0] + (b[0] - a[0]) * (p[1] - a[1]) / (b[1] - a[1])
                if x > p[0]:
                    n += 1
                    w += 1 if b[1] > a[1] else -1
    return w, n


def key(ring):
    """A ring of float points up to rotation and direction."""
    pts = [tuple(round(c, 6) for c in p) for p in ring]
    best = None
    for q in (pts, pts[::-1]):
        for k in range(len(q)):
            if q[k] == min(q):
                c = tuple(q[k:] + q[:k])
                best = c if best is None else min(best, c)
    return best


def wanted(g):
    return sorted(key([(float(a), float(b)) for a, b in r])
                  for r in geo.rings_of(g))


def same_color(a, b):
    import matplotlib.colors as mc
    return np.allclose(mc.to_rgba(a), mc.to_rgba(b))


def run_case(case, rec):
    rec.outcome(case)
    if case[0] == 'model':
        return run_model(case[1], rec)
    if case[0] == 'stages':
        return run_stages(case[1], rec)
    emb, st = case[-2:]
    w = World.get(case[1], emb)
    if case[0] == 'm':
        g, mask = w.operand(['m', case[2]])
    else:
        a, b, c = case[2:5]
        m = [w.gmask[k] for k in (a, b, c)]
        g = (w.gens[a] - w.gens[b]) | (w.gens[c] & w.gens[b])
        g = (g - w.gens[c]) | (w.gens[c] - g)
        mask = ((m[0] & ~m[1]) | (m[2] & m[1])) ^ m[2]
    if mask != w.dec.mask_of(g.locate)[0]:
        rec.count('wrong_operand')      # C04's business
        return None
    style = STYLE[st]
    before = geo.canon(g)
    ax = axes()
    pic = []
    pic.append(g.to_mpatch(**style))
    if len(ax.patches):
        return 'a patch is added to axes that were not given'
    p = g.to_mpatch(ax=ax, **style)
    pic.append(p)
    got = list(ax.patches)
    if got != ([p] if mask else []):
        return '%d patches added to the axes given' % len(got)
    ax = axes()
    show = dict(style)
    g.show2d(ax, show.pop('color', 'red'), **show)
    got = list(ax.patches)
    if len(got) != (1 if mask else 0):
        return 'show2d adds %d patches' % len(got)
    if mask and ax.get_aspect() not in (1, 'equal'):
        return 'show2d distorts the picture: aspect %s' % ax.get_aspect()
    if mask:
        xs = [float(v[0]) for r in geo.rings_of(g) for v in r]
        lo, hi = ax.get_xlim()
        if not lo <= min(xs) <= max(xs) <= hi:
            return 'show2d leaves part of the set out of view'
    pic += got if mask else [None]
    if geo.canon(g) != before:
        return 'drawing changes the set'
    for p in pic:
        if not mask:
            if p is not None:
                return 'the empty set is drawn'
            continue
        d = picture_problem(p, g, w.dec, mask)
        if d:
            return d
        if not p.get_fill() or not same_color(
                p.get_facecolor()[:3], style.get('color', 'red')):
            return 'filled with %s instead of %s' % (p.get_facecolor(), style)
        if p.get_alpha() not in (style.get('alpha', 1.0), None) or abs(
                p.get_facecolor()[3] - style.get('alpha', 1.0)) > 1e-9:
            return 'transparency %s' % p.get_alpha()
        if p.get_linewidth() != style.get('linewidth', 0):
            return 'line width %s' % p.get_linewidth()
        if 'label' in style and p.get_label() != style['label']:
            return 'label %r' % p.get_label()
    return None


def picture_problem(p, g, dec, mask):
    rings = loops(p)
    if isinstance(rings, str):
        return rings
    if sorted(map(key, rings)) != wanted(g):
        return 'the curves drawn are not the boundary of the set'
    for i, t in enumerate(dec.traps):
        pt = tuple(float(c) for c in t[1])
        wn, n = winding(rings, pt)
        want = dec.trap_in(i, mask)
        if (wn != 0) != want or (n % 2 == 1) != want:
            return 'the point %s is %s' % (
                pt, 'left out' if want else 'filled')
    for q in dec.far:
        if winding(rings, tuple(float(c) for c in q)) != (0, 0):
            return 'the point %s is filled' % (geo.fl(q),)
    return None


def run_model(model, rec):
    from plycutter import sheetbuild
    show = getattr(sheetbuild, 'show_sheet', None)
    if show is None:
        raise core.SeamMissing('sheetbuild.show_sheet')
    t = models.boxes_of(model)[1]
    sp, r = models.run(model, models.conv_params({'thickness': str(t)}))
    if not r.ok:
        rec.count('pipeline_fails')     # not this property's business
        return None
    F = Q
    for n, sb in enumerate(r.history):
        for sid in sorted(sp.sheets):
            rec.count('sheet_pictures')
            rec.outcome([model, n, sid])
            ax = axes()
            show(ax, sp, sb, sid)
            got = []
            for p in ax.patches:
                rings = loops(p)
                if isinstance(rings, str):
                    return rings
                got.append((sorted(map(key, rings)), p))
            want = [('allowed material', sb.sheet_ok[sid]),
                    ('chosen material', sb.sheet_chosen[sid])]
            for i in sp.intersections.values():
                for s in i.sides:
                    if s.sheet != sid:
                        continue
                    for name, v, lo, hi in (
                            ('chosen', sb.interside_chosen[s.id], 4, 6),
                            ('open', sb.interside_ok[s.id], 3, 7)):
                        want.append(('%s positions of %s' % (name, s.id),
                                     s.make_fingers(v, F(lo, 10),
                                                    F(hi, 10))))
            for name, g in want:
                if g.is_empty():
                    continue
                k = wanted(g)
                hit = [x for x in got if x[0] == k]
                if not hit:
                    return 'stage %d, sheet %s: the %s is not shown' % (
                        n, sid, name)
                if not hit[0][1].get_fill() or \
                        hit[0][1].get_facecolor()[3] == 0:
                    return 'stage %d, sheet %s: the %s is invisible' % (
                        n, sid, name)
                got.remove(hit[0])
            if got:
                return 'stage %d, sheet %s: %d other things are shown' % (
                    n, sid, len(got))
    return None


def run_stages(model, rec):
    """canned_1(show=True) with the notebook's display() recorded."""
    import os
    import sys
    import types
    os.environ['MPLBACKEND'] = 'Agg'
    import matplotlib.pyplot as plt
    from plycutter import canned
    t = models.boxes_of(model)[1]
    prm = models.conv_params({'thickness': str(t)})
    sp, r0 = models.run(model, prm)
    if not r0.ok:
        return None
    shown = []
    ip, dm = types.ModuleType('IPython'), types.ModuleType('IPython.display')
    dm.display = lambda *figs: shown.extend(figs)
    ip.display = dm
    ip.get_ipython = dm.get_ipython = lambda: None
    ip.version_info = (9, 0)
    old = {k: sys.modules.get(k) for k in ('IPython', 'IPython.display')}
    sys.modules.update({'IPython': ip, 'IPython.display': dm})
    try:
        r = canned.canned_1(sp, models.params(**prm), show=True)
        seen = {}
        for f in shown:
            for a in f.axes:
                if a.get_title():
                    seen.setdefault(a.get_title(), []).append(
                        len(a.patches))
    finally:
        plt.close('all')
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    if not r.ok:
        return 'the run fails when its stages are shown'
    for k in sp.sheets:
        if geo.canon(r.sheet_cuts[k]) != geo.canon(r0.sheet_cuts[k]):
            return 'showing the stages changes sheet %s' % k
    rec.count('figures', len(shown))
    if sorted(seen) != sorted(sp.sheets):
        return 'sheets %s are shown, the model has %s' % (
            sorted(seen), sorted(sp.sheets))
    n = {len(v) for v in seen.values()}
    if len(n) > 1 or min(n) < 2:
        return 'the sheets are shown %s times' % sorted(n)
    for k in sp.sheets:
        if not r.sheet_cuts[k].is_empty() and seen[k][-1] == 0:
            return 'the last picture of sheet %s is empty' % k
    return None
