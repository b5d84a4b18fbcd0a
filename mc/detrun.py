"""One pipeline run in a fresh process; prints a JSON line:
[iteration orders, canonical curves digest, decisions digest]."""
import hashlib
import json
import logging
import sys


def dig(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def one(model, p):
    from mc import dxf, models
    sp, r = models.run(model, models.conv_params(
        dict(p, thickness=str(models.boxes_of(model)[1]))))
    out = {k: sorted(dxf.canonical(dxf.rings(g), 12))
           for k, g in r.sheet_cuts.items()}
    dec = [(str(s.id), [(str(a), str(b)) for a, b in
                        r.sheetbuild.interside_chosen[s.id].get_intervals()])
           for s in sp.intersides()]
    ids = [(k, [round(float(x), 6) for x in s.normal(0)],
            round(float(s.offset(0)), 6)) for k, s in sorted(
                sp.sheets.items())]
    order = [list(sp.sheets.keys()), list(sp.intersections.keys()),
             [str(k) for k in r.sheetbuild.interside_ok.keys()]]
    return order, dig((ok(r), sorted(out.items()))), dig((sorted(dec), ids))


def ok(r):
    return bool(r.ok)


if __name__ == '__main__':
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, '/repo')
    model, p, noise = json.loads(sys.argv[1])
    if noise:
        # unrelated work before must not matter
        import random
        import numpy as np
        np.random.seed(noise)
        random.seed(noise)
        np.random.rand(noise * 17)
        one(['panels', [0]], {'random_seed': noise})
    print('RESULT ' + json.dumps(one(model, p)))
