"""Reading back a DXF file and matching it with the sheets written."""
import math


def curves(path):
    """[(x, y), ..] closed curves (closing point dropped); raises ValueError
    on anything that is not a plain closed polyline."""
    import ezdxf
    out = []
    for e in ezdxf.readfile(path).modelspace():
        if e.dxftype() == 'LWPOLYLINE':
            pts = [(p[0], p[1]) for p in e.get_points('xy')]
            if any(b for b, in e.get_points('b')):
                raise ValueError('a curve has bulges')
            closed = e.closed
        elif e.dxftype() == 'POLYLINE':
            pts = [(v.dxf.location.x, v.dxf.location.y) for v in e.vertices]
            closed = e.is_closed
        else:
            raise ValueError('unexpected entity ' + e.dxftype())
        if any(not math.isfinite(c) for p in pts for c in p):
            raise ValueError('a curve has non-finite coordinates')
        if len(pts) > 1 and pts[0] == pts[-1]:
            pts = pts[:-1]
        elif not closed:
            raise ValueError('a curve is not closed')
        out.append(pts)
    return out


def bbox(pts):
    return (min(p[0] for p in pts), min(p[1] for p in pts),
            max(p[0] for p in pts), max(p[1] for p in pts))


def rings(g):
    out = []
    for p in g.polygons():
        for r in [p.exterior()] + list(p.holes()):
            out.append([(float(a), float(b)) for a, b in r])
    return out


def same_ring(a, b, d, tol):
    """Is ring b = ring a moved by d (any start vertex, any direction)?"""
    n = len(a)
    if len(b) != n:
        return False
    for s in range(n):
        if abs(a[0][0] + d[0] - b[s][0]) > tol or \
                abs(a[0][1] + d[1] - b[s][1]) > tol:
            continue
        for di in (1, -1):
            if all(abs(a[i][0] + d[0] - b[(s + di * i) % n][0]) <= tol and
                   abs(a[i][1] + d[1] - b[(s + di * i) % n][1]) <= tol
                   for i in range(n)):
                return True
    return False


def match(sheets, cs, tol=1e-6, gap=0.):
    """sheets: {id: [rings]}; cs: curves.  None if cs is exactly the sheets,
    each moved by one translation, not overlapping."""
    todo = [(k, rs) for k, rs in sheets.items() if rs]
    n = sum(len(rs) for _, rs in todo)
    if n != len(cs):
        return '%d curves in the file, %d boundaries in the parts' % (
            len(cs), n)
    cb = [bbox(c) for c in cs]

    def place(rs, free):
        """Possible (translation, used curves)."""
        rb = bbox(rs[0])
        for j in sorted(free):
            d = (cb[j][0] - rb[0], cb[j][1] - rb[1])
            if abs(cb[j][2] - rb[2] - d[0]) > tol or \
                    abs(cb[j][3] - rb[3] - d[1]) > tol:
                continue
            used = set()
            for r in rs:
                for i in free:
                    if i not in used and same_ring(r, cs[i], d, tol):
                        used.add(i)
                        break
                else:
                    break
            if len(used) == len(rs):
                yield d, used

    def rec(i, free, boxes):
        if i == len(todo):
            return True
        allp = [p for r in todo[i][1] for p in r]
        b = bbox(allp)
        for d, used in place(todo[i][1], free):
            nb = (b[0] + d[0], b[1] + d[1], b[2] + d[0], b[3] + d[1])
            if any(nb[0] < o[2] + gap and o[0] < nb[2] + gap and
                   nb[1] < o[3] + gap and o[1] < nb[3] + gap for o in boxes):
                continue
            if rec(i + 1, free - used, boxes + [nb]):
                return True
        return False
    # the placements are forced by shape; search over the ambiguous ones
    if rec(0, frozenset(range(len(cs))), []):
        return None
    for k, rs in todo:
        if not any(True for _ in place(rs, frozenset(range(len(cs))))):
            return 'part %s is not in the file' % k
    return 'the parts overlap in the file'


def canonical(cs, nd=9):
    """Order-independent value of a set of closed curves."""
    out = []
    for c in cs:
        c = [(round(x, nd), round(y, nd)) for x, y in c]
        best = None
        for r in (c, c[::-1]):
            i = r.index(min(r))
            v = r[i:] + r[:i]
            if best is None or v < best:
                best = v
        out.append(best)
    return sorted(out)
