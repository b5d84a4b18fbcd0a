"""Generator polygons ("alphabets") for the 2D checks, and exact affine
embeddings of them."""
from gmpy2 import mpq as Q


def sq(x0, y0, x1, y1):
    return [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]


def dia(cx, cy, r):
    return [(cx - r, cy), (cx, cy + r), (cx + r, cy), (cx, cy - r)]


def tri_grid(nx, ny):
    out = []
    for x in range(nx):
        for y in range(ny):
            out.append([(x, y), (x + 1, y), (x + 1, y + 1)])
            out.append([(x, y), (x + 1, y + 1), (x, y + 1)])
    return out


def x_quads(nx, ny):
    out = []
    for x in range(nx):
        for y in range(ny):
            c = (x + Q(1, 2), y + Q(1, 2))
            q = [(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)]
            for i in range(4):
                out.append([q[i], q[(i + 1) % 4], c])
    return out


def grid(nx, ny):
    return [sq(x, y, x + 1, y + 1) for x in range(nx) for y in range(ny)]


# Layouts whose generators are interior-disjoint (the atoms): every subset of
# atoms is a state.
PARTITIONS = {
    'sq32': grid(3, 2),
    'sq33': grid(3, 3),
    'sq42': grid(4, 2),
    'tri22': tri_grid(2, 2),
    'tri12': tri_grid(1, 2),
    'xq21': x_quads(2, 1),
    # three L shapes / bars of different sizes around a pinwheel
    'pin': [sq(0, 0, 2, 1), sq(2, 0, 3, 2), sq(1, 2, 3, 3), sq(0, 1, 1, 3),
            sq(1, 1, 2, 2)],
    # diamonds touching each other only at vertices
    'dia': [dia(0, 0, 1), dia(2, 0, 1), dia(1, 1, 1), dia(1, -1, 1),
            dia(3, 1, 1), dia(3, -1, 1)],
    # touching along parts of edges (T vertices)
    'brick': [sq(0, 0, 4, 2), sq(1, 2, 3, 4), sq(3, 2, 6, 3), sq(4, 0, 5, 1),
              sq(2, -2, 5, 0), sq(-1, 1, 0, 3)],
}

NEAR = Q(1, 2 ** 70)
FINE = ('sliver', 'near', 'gaps')

# Layouts with overlapping generators, explored breadth first.
OVERLAPS = {
    'venn3': [sq(0, 0, 4, 4), sq(2, 1, 6, 5), sq(1, 3, 5, 7)],
    'venn4': [sq(0, 0, 4, 4), sq(2, 1, 6, 5), sq(1, 3, 5, 7),
              [(0, 5), (6, 2), (7, 6)]],
    'nest': [sq(0, 0, 10, 10), sq(1, 1, 9, 9), sq(2, 2, 8, 8),
             sq(3, 3, 7, 7), sq(4, 4, 6, 6)],
    'isles': [sq(0, 0, 12, 8), sq(1, 1, 11, 7), sq(2, 2, 5, 5),
              sq(6, 2, 10, 6), sq(7, 3, 9, 5)],
    'hexagram': [[(0, 0), (6, 0), (3, 5)], [(0, 3), (6, 3), (3, -2)],
                 [(1, 2), (3, -1), (5, 2)]],
    'colli': [sq(0, 0, 4, 2), sq(1, 0, 3, 3), sq(2, 0, 6, 1),
              sq(1, 1, 3, 2), sq(0, 1, 6, 2)],
    # hole touching the outer boundary at one vertex, and islands touching
    # a hole at vertices
    'touch': [sq(0, 0, 8, 8), dia(4, 6, 2), dia(4, 4, 4), sq(2, 2, 6, 6),
              dia(4, 4, 1)],
    'sliver': [[(0, 0), (10, 0), (10, Q(1, 10 ** 9))],
               [(0, 0), (10, Q(1, 10 ** 9)), (10, 1)],
               sq(5, -1, 6, 1), [(0, 0), (10, Q(-1, 10 ** 9)), (10, 0)]],
    # vertices and crossings closer together than a float can tell
    'near': [sq(0, 0, 4, 4), sq(2, -1, 4 + NEAR, 4 - NEAR),
             sq(3, 1, 6, 5), sq(3 + NEAR, 4, 5, 6),
             [(2, 0), (4, 4 + NEAR), (2 - NEAR, 6)]],
    'gaps': [sq(0, 0, 4, 4), sq(4 + NEAR, 0, 8, 4),
             sq(3, -2, 5, 3), sq(3 + NEAR, -2, 5 + NEAR, 3 + NEAR),
             [(0, -NEAR), (8, 4), (9, -1)]],
    'nonconv': [[(0, 0), (0, 6), (2, 6), (2, 2), (4, 2), (4, 6), (6, 6),
                 (6, 0)],
                [(1, 3), (1, 5), (5, 5), (5, 3)],
                [(3, -1), (2, 4), (3, 7), (4, 4)]],
    'comb': [[(0, 0), (0, 3), (1, 3), (1, 1), (2, 1), (2, 3), (3, 3), (3, 1),
              (4, 1), (4, 3), (5, 3), (5, 0)],
             sq(-1, 2, 6, 4), sq(1, 1, 4, 3)],
}

EMB = {
    'id': ((1, 0, 0), (0, 1, 0)),
    'neg': ((-1, 0, -5), (0, 1, Q(-3, 7))),
    'rot': ((Q(3, 5), Q(-4, 5), Q(1, 3)), (Q(4, 5), Q(3, 5), -2)),
    'shear': ((1, Q(1, 3), 0), (Q(1, 7), 1, 11)),
    'swap': ((0, 1, Q(1, 2)), (1, 0, Q(-9, 2))),
    'huge': ((10 ** 9, 3, Q(1, 3)), (-1, 10 ** 9, Q(1, 7))),
    'tiny': ((Q(1, 10 ** 7), 0, 1), (0, Q(1, 10 ** 7), -1)),
    'aniso': ((1000, Q(1, 9), 0), (0, Q(1, 1000), 0)),
}


# same area, same first vertex (clockwise), different sets
FANS = {'fan': [[(0, 0), (0, 1), (2, 1), (2, 0)],
                [(0, 0), (0, 2), (1, 2), (1, 0)],
                [(0, 0), (0, 2), (2, 0)],
                [(0, 0), (0, -1), (-2, -1), (-2, 0)],
                [(0, 0), (-1, 2), (1, 2)]],
        'fan2': [[(0, 0), (0, 2), (2, 2), (2, 0)],
                 [(0, 0), (1, 2), (3, 2), (2, 0)],
                 [(0, 0), (0, 2), (2, 2), (2, 0)],
                 [(0, 0), (0, 4), (2, 0)]]}
# n horizontal and n vertical bars: lattices with many holes
GRIDS = {'grid%d' % n: [sq(-1, 3 * i, 3 * n - 1, 3 * i + 1)
                        for i in range(n)] +
         [sq(3 * i, -1, 3 * i + 1, 3 * n - 1) for i in range(n)]
         for n in (3, 4, 6, 8, 10)}
# slanted bars over horizontal ones
GRIDS.update({'slant%d' % n: [sq(-1, 3 * i, 4 * n, 3 * i + 1)
                              for i in range(n)] +
              [[(3 * i, -1), (3 * i + 1, -1), (3 * i + n + 1, 3 * n),
                (3 * i + n, 3 * n)] for i in range(n)] for n in (3, 5, 7)})


def apply(emb, p):
    a, b = EMB[emb]
    return (Q(a[0] * p[0] + a[1] * p[1] + a[2]),
            Q(b[0] * p[0] + b[1] * p[1] + b[2]))


def rings(layout, emb='id'):
    src = PARTITIONS.get(layout) or OVERLAPS.get(layout) or \
        FANS.get(layout) or GRIDS[layout]
    return [[apply(emb, p) for p in r] for r in src]
