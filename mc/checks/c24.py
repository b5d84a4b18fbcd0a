"""The command line: every option takes effect, output goes where asked."""
import os
import shutil

from gmpy2 import mpq as Q

from .. import core, dxf, models

PID = 'C24'
LEVEL = 'exploration'
CPU_LIMIT = 200
RULE = ('every option value and option combination of the list is given to '
        'the real command line on an STL file; the DXF written must hold '
        'exactly the parts the library computes for these parameters, grown '
        'by the kerf setting; it must appear exactly at the path asked for '
        '(or beside the input with suffix .dxf) and nowhere else, and the '
        'input must be untouched; invalid calls must fail without writing. '
        'Distinct = command line.')
ASSUMPTIONS = ['parts are compared as closed curves to 1e-6']

# [model, file name, arguments, output path or None, parameters]
GOOD = [
    [['panels', [0]], 'a.stl', [], None, {}],
    [['panels', [0]], 'a.b.v2.stl', [], None, {}],
    [['panels', [0]], 'sub/a.stl', [], None, {}],
    [['panels', [0]], 'd.stl.d/a.stl.v2.stl', [], None, {}],
    [['panels', [0]], 'd.stl.d/.hid.stl', [], None, {}],
    [['panels', [0]], 'my box.stl', [], None, {}],
    [['panels', [0]], 'A.STL', [], None, {}],
    [['panels', [0]], 'ABS/b.obj.ply', [], None, {}],
    [['panels', [0]], 'ABS/a.stl', [], None, {}],
    [['panels', [0]], 'a.STL', ['-o', 'out/x.dxf'], 'out/x.dxf', {}],
    [['panels', [0]], 'a.stl', ['--output_file', 'y.plan.dxf'],
     'y.plan.dxf', {}],
    [['panels', [0]], 'a.stl', ['-o', 'OLD.dxf'], 'OLD.dxf', {}],
    [['panels', [0]], 'sub/a.stl', ['-o', 'x.dxf'], 'x.dxf', {}],
    [['panels', [0]], 'sub/a.stl', ['--output_file=out/x.dxf'], 'out/x.dxf',
     {}],
    [['panels', [0]], 'ABS/a.stl', ['-o', 'sub/../x.dxf'], 'x.dxf', {}],
    [['panels', [0]], 'a.stl', ['-o', 'ABS/x.dxf'], 'ABS/x.dxf', {}],
    [['panels', [0]], 'a.stl', ['-o', 'out/plan'], 'out/plan', {}],
    [['panels', [0]], 'a.stl', ['-o', 'my plan.v2.DXF'], 'my plan.v2.DXF',
     {}],
    [['panels', [0]], './sub/../a.stl', [], 'a.dxf', {}],
    [['panels', [0]], 'a.off', [], None, {}],
    [['panels', [0]], 'a.stl', ['--debug'], None, {}],
    [['panels', [0]], 'a.stl', ['--final_dilation', '1/8000'], None,
     {'final_dilation': '1/8000'}],
    [['panels', [0]], 'a.stl', ['--final_dilation', '0.0625'], None,
     {'final_dilation': '1/16'}],
    [['panels', [0]], 'a.stl', ['--final_dilation', '0'], None,
     {'final_dilation': '0'}],
    [['panels', [0]], 'a.stl', ['--final_dilation', '1/10'], None,
     {'final_dilation': '1/10'}],
    [['panels', [0]], 'a.stl', ['--final_dilation=0.25'], None,
     {'final_dilation': '1/4'}],
    [['panels', [0]], 'a.stl', ['--final_dilation=-1/8'], None,
     {'final_dilation': '-1/8'}],
    ['L3', 'a.stl', ['--thickness', '3'], None, {'thickness': '3'}],
    ['L2', 'a.stl', ['--thickness', '2.0', '--min_finger_width', '4',
                     '--max_finger_width', '13/2'], None,
     {'thickness': '2', 'min_finger_width': '4',
      'max_finger_width': '13/2'}],
    ['small', 'a.stl', ['--thickness', '2'], None, {'thickness': '2'}],
    ['tiny', 'a.stl', ['--thickness=1', '--min_finger_width=1',
                       '--max_finger_width', '2'], None,
     {'thickness': '1', 'min_finger_width': '1', 'max_finger_width': '2'}],
    ['T', 'a.stl', [], None, {}],
    [['panels', [0, 4]], 'a.stl', [], None, {}],
    [['panels', [0, 4]], 'a.stl', ['--random_seed', '1'], None,
     {'random_seed': 1}],
    [['panels', [0, 4]], 'a.stl', ['--random_seed', '0'], None,
     {'random_seed': 0}],
    [['panels', [0, 4]], 'a.stl', ['--min_finger_width', '31/10',
                                   '--max_finger_width', '31/10'], None,
     {'min_finger_width': '31/10', 'max_finger_width': '31/10'}],
    [['panels', [0, 4]], 'a.stl', ['--min_finger_width', '3.125',
                                   '--max_finger_width', '4.0625',
                                   '--random_seed', '99'], None,
     {'min_finger_width': '25/8', 'max_finger_width': '65/16',
      'random_seed': 99}],
    [['panels', [0, 4]], 'a.stl', ['--random_seed=7', '--final_dilation',
                                   '1/3'], None,
     {'random_seed': 7, 'final_dilation': '1/3'}],
    [['panels', [0, 4]], 'a.stl', ['--min_finger_width', '1',
                                   '--max_finger_width', '8'], None,
     {'min_finger_width': '1', 'max_finger_width': '8'}],
    [['panels', [0, 4]], 'a.stl', ['--max_finger_width', '10'], None,
     {'max_finger_width': '10'}],
    [['panels', [0, 4]], 'a.stl', ['--min_finger_width', '9/2'], None,
     {'min_finger_width': '9/2'}],
    ['lid', 'a.stl', ['--support_radius', '1/2'], None,
     {'support_radius': '1/2'}],
    ['lid', 'a.stl', ['--support_radius', '20'], None,
     {'support_radius': '20'}],
]
BAD = [['nofile.stl', []], ['cube.stl', []], ['a.stl', ['--thickness', 'x']],
       ['a.stl', ['--random_seed', '1.5']], ['a.stl', ['--nonsense', '1']],
       ['a.stl', ['--thickness', '9']], ['text.stl', []], [None, []],
       ['cube.stl', ['-o', 'keep.dxf']], ['nofile.stl', ['-o', 'keep.dxf']]]


def bounds(tier):
    return dict(command_lines=[[m, f, a] for m, f, a, _, _ in GOOD],
                invalid=BAD)


def items(tier):
    out = [['good', i] for i in range(len(GOOD))]
    out += [['bad', i] for i in range(len(BAD))]
    if tier == 'thorough':
        for m in ('X', 'H', 'gap', 'TT', 'notch', ['panels', [0, 2, 4]]):
            for a, p in (([], {}), (['--random_seed', '3'],
                                    {'random_seed': 3}),
                         (['--final_dilation', '0'],
                          {'final_dilation': '0'})):
                out.append(['x', [m, 'a.stl', a, None, p]])
    return out


def weight(it):
    if it[0] == 'bad':
        return 0
    g = GOOD[it[1]] if it[0] == 'good' else it[1]
    return len(models.boxes_of(g[0])[0])


def work(item, rec):
    rec.check(item)


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def run_case(case, rec):
    main = core.seam('plycutter.command_line', 'main')
    root = os.path.abspath('c24-%d' % os.getpid())
    os.makedirs(root)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        rec.outcome(case)
        if case[0] == 'bad':
            return bad(main, root, *BAD[case[1]])
        return good(main, root, *(GOOD[case[1]] if case[0] == 'good'
                                  else case[1]))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def good(main, root, model, fname, args, out, p):
    import trimesh
    from plycutter import canned, create_sheetplex
    os.makedirs('out')
    os.makedirs('sub')
    os.makedirs('d.stl.d')
    os.makedirs('ABS')
    with open('OLD.dxf', 'w') as f:
        f.write('an older file')
    path = os.path.join(root, fname) if fname.startswith('ABS') else fname
    models.mesh(model).export(
        path, file_type=os.path.splitext(fname)[1][1:].lower())
    args = [os.path.join(root, a) if a.startswith('ABS') else a
            for a in args]
    before = tree(root)
    main(args + [path] if len(args) % 2 else [path] + args)
    after = tree(root)
    want_out = out or os.path.splitext(fname)[0] + '.dxf'
    changed = sorted(k for k in set(before) | set(after)
                     if before.get(k) != after.get(k))
    if changed != [want_out]:
        return 'files changed: %s, expected only %s' % (changed, want_out)
    prm = models.conv_params(p)
    sp = create_sheetplex.create_sheetplex(trimesh.load(path), prm)
    r = canned.canned_1(sp, prm)
    if not r.ok:
        return 'the library reports failure'
    parts = {k: g.buffer(Q(prm['final_dilation']))
             for k, g in r.sheet_cuts.items()}
    # the kerf really is the setting
    for k, g in r.sheet_cuts.items():
        if not g.is_empty():
            a = dxf.bbox([q for x in dxf.rings(g) for q in x])
            b = dxf.bbox([q for x in dxf.rings(parts[k]) for q in x])
            d = float(prm['final_dilation'])
            if any(abs(abs(x - y) - abs(d)) > 1e-6 for x, y in zip(a, b)):
                return 'part %s grows from %s to %s' % (k, a, b)
    try:
        cs = dxf.curves(want_out)
    except ValueError as e:
        return str(e)
    return dxf.match({k: dxf.rings(g) for k, g in parts.items()}, cs)


def bad(main, root, fname, args):
    import trimesh
    models.mesh(['panels', [0]]).export('a.stl')
    trimesh.creation.box((40, 40, 40)).export('cube.stl')
    with open('text.stl', 'w') as f:
        f.write('hello')
    with open('keep.dxf', 'w') as f:
        f.write('older')
    before = tree(root)
    try:
        main(args + ([fname] if fname else []))
    except (Exception, SystemExit) as e:
        if isinstance(e, SystemExit) and not e.code:
            return 'an invalid call exits with success'
        if tree(root) != before:
            return 'a failed call changed files'
        return None
    return 'an invalid call succeeded'
