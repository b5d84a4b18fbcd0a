"""Along the whole pipeline decisions only grow and options only shrink."""
import itertools

from gmpy2 import mpq as Q

from .. import models

PID = 'C26'
LEVEL = 'model_checking'
CPU_LIMIT = 300
RULE = ('the pipeline is run on every model of the family; every pair of '
        'consecutive recorded builds is a transition: chosen material and '
        'chosen joint positions never shrink, allowed ones never grow '
        '(beyond what is chosen), chosen is within allowed, no joint '
        'position is chosen by or left open to the other side, nothing is '
        'chosen outside the model material or where the joined sheet has '
        'material chosen; at the end every open joint position is decided '
        'and every single finger is within the width limits. Distinct = '
        '(model, parameters, stage).')
ASSUMPTIONS = ['area tolerance 1e-7']


def cases(tier):
    out = []
    for a, b in itertools.combinations(range(6), 2):
        if tier == 'thorough' or (a, b) in ((0, 1), (0, 2), (1, 4), (3, 5)):
            out.append([['panels', [a, b]], {}])
    for m in ('T', 'X', 'H', 'gap', 'off', 'corner3', 'L2', 'L10', 'notch',
              'window', 'lid', 'Tbox', 'TT', 'Xin'):
        if tier == 'thorough' or m not in ('Tbox', 'TT', 'notch', 'H'):
            out.append([m, {}])
    out.append([['panels', [0, 2, 4]], {}])
    out.append(['rack', {}])
    out.append([['cup', 'tri'], {}])
    for p in ({'min_finger_width': '1', 'max_finger_width': '2'},
              {'min_finger_width': '9', 'max_finger_width': '10'},
              {'random_seed': 9}):
        out.append([['panels', [0, 4]], p])
    if tier == 'thorough':
        for c in itertools.combinations(range(6), 3):
            for s in (42, 1):
                out.append([['panels', list(c)], {'random_seed': s}])
        for c in itertools.combinations(range(6), 4):
            out.append([['panels', list(c)], {}])
        out.append([['panels', list(range(6))], {}])
        out += [[['cup', c], {}] for c in models.CUPS if c != 'tri']
    return out


def bounds(tier):
    return dict(cases=cases(tier))


def items(tier):
    return cases(tier)


def weight(it):
    return 3 ** len(models.boxes_of(it[0])[0])


def work(item, rec):
    rec.check(item)


TOL = Q(1, 10**7)


def run_case(case, rec):
    model, p = case
    t = models.boxes_of(model)[1]
    prm = models.conv_params(dict(p, thickness=str(t)))
    sp, r = models.run(model, prm)
    if not r.ok:
        return 'the pipeline fails'
    hist = list(r.history)
    if not len(hist) > 1:
        return 'no history'
    if r.sheetbuild is not hist[-1] and any(
            (r.sheetbuild.sheet_chosen[k] - hist[-1].sheet_chosen[k]).area()
            for k in sp.sheets):
        return 'the history does not end with the result'
    names = []
    for i, sb in enumerate(hist):
        d = sb.dbg if 'dbg' in sb else None
        names.append(getattr(d, '__name__', str(d)))
    prev = None
    for i, sb in enumerate(hist):
        rec.count('states')
        at = 'before stage %d (%s): ' % (i, names[i])
        rec.outcome((str(model), str(p), i, names[i]))
        for k, s in sorted(sp.sheets.items()):
            ch, ok = sb.sheet_chosen[k], sb.sheet_ok[k]
            if (ch - ok).area() > TOL:
                return at + 'chosen material not allowed on %s' % k
            if (ok - s.slices_max).area() > TOL:
                return at + 'allowed outside the material of %s' % k
            if prev is not None:
                if (prev.sheet_chosen[k] - ch).area() > TOL:
                    return at + 'chosen material lost on %s' % k
                if (ok - prev.sheet_ok[k]).area() > TOL:
                    return at + 'disallowed material returned on %s' % k
        for s in sp.intersides():
            o = s.opposite(sp)
            ch, ok = sb.interside_chosen[s.id], sb.interside_ok[s.id]
            if (ch - ok).measure1d() > TOL:
                return at + 'chosen joint position not allowed %s' % (s.id,)
            if not (ch & sb.interside_chosen[o.id]).is_empty():
                return at + 'both sides of %s chosen' % s.intersection
            if not (ch & sb.interside_ok[o.id]).is_empty():
                return at + 'a chosen position of %s is still open to the ' \
                    'other side' % s.intersection
            if prev is not None:
                if (prev.interside_chosen[s.id] - ch).measure1d() > TOL:
                    return at + 'a joint decision was lost on %s' % (s.id,)
                if (ok - prev.interside_ok[s.id]).measure1d() > TOL:
                    return at + 'a closed position returned on %s' % (s.id,)
            if prev is not None:
                new = ch - prev.interside_chosen[s.id]
                if not new.is_empty():
                    # a decision takes the fingers away from the other sheet
                    f = o.make_fingers(new)
                    if (f & sb.sheet_ok[o.sheet]).area() > TOL * 1000:
                        return at + 'material of a finger of %s is still ' \
                            'allowed on %s' % (s.id, o.sheet)
        if prev is not None:
            rec.count('transitions')
        prev = sb
    last = hist[-1]
    mn, mx = prm['min_finger_width'], prm['max_finger_width']
    for iid, inter in sorted(sp.intersections.items()):
        a, b = [last.interside_chosen[s.id] for s in inter.sides]
        start = hist[0].interside_ok[inter.sides[0].id]
        # decided positions are where the joint was open
        if ((a | b) - start).measure1d() > TOL:
            return 'joint %s: decided where it was never open' % iid
        for s in inter.sides:
            left = last.interside_ok[s.id] - last.interside_chosen[s.id]
            if left.measure1d() > TOL:
                return 'joint %s: %s is open but never decided' % (iid, left)
    # fingers made in the random stage
    for i in range(len(hist) - 1):
        if names[i] != 'single_fingers_random':
            continue
        for iid, inter in sorted(sp.intersections.items()):
            ids = [s.id for s in inter.sides]
            av = hist[i].interside_ok[ids[0]] - \
                hist[i].interside_chosen[ids[0]]
            for lo, hi in av.get_intervals():
                from plycutter.geometry.geom1d import Geom1D
                w = Geom1D([[lo, hi]])
                f = []
                for q in ids:
                    f += (hist[i + 1].interside_chosen[q]
                          & w).get_intervals()
                if len(f) == 1:
                    continue
                for x, y in f:
                    if not mn - TOL <= y - x <= mx + TOL:
                        return 'joint %s: finger of width %s' % (
                            iid, float(y - x))
    return None
