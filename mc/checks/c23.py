"""Failures inside the pipeline are reported and nothing is written."""
import os
import shutil
import types

from gmpy2 import mpq as Q

from .. import core, models

PID = 'C23'
LEVEL = 'fault_enumeration'
CPU_LIMIT = 200
RULE = ('a fault is injected at every call of every pipeline stage, of the '
        'build creation, of every consistency check, of the kerf step and '
        'of the file writer, one at a time (several exception classes): the '
        'command line must fail and neither create nor touch the output; '
        'with return_on_failure the library must return ok = False with the '
        'last good build and the history, without it the error must come '
        'out. Distinct = (fault point, exception, mode).')
ASSUMPTIONS = []
STAGES = ['choose_obviously_irrelevant', 'remove_loose',
          'update_intersection_ok', 'update_sheet_ok',
          'heuristic_multi_inter_single_decisions', 'choose_the_ok_side',
          'single_fingers_random', 'clean_up_thin_ok_parts']
EXC = ['AssertionError', 'ValueError', 'KeyError', 'ZeroDivisionError',
       'Boom']


class Boom(Exception):
    pass


def bounds(tier):
    return dict(models=['panels [0] (every operation)',
                        'panels [0, 4] (every stage call; every %s)' %
                        ('operation' if tier == 'thorough' else
                         'consistency check')], exceptions=EXC)


P0, P04 = ['panels', [0]], ['panels', [0, 4]]


def items(tier):
    out = [['nosheets', ['panels', []], None]]
    for m in (P0, P04):
        for s in STAGES:
            out.append(['stage', m, s])
        out.append(['corrupt', m, STAGES[-1]])
        for k in ('create', 'sheetplex', 'final', 'writer', 'saveas',
                  'line'):
            out.append([k, m, None])
    for i in range(4):
        out.append(['check', P0, [i, 4]])
        out.append(['op', P0, [i, 4]])
        out.append(['check', P04, [i, 4]])
    if tier == 'thorough':
        for i in range(60):
            out.append(['op', P04, [i, 60]])
    return out


def weight(it):
    return len(it[1][1])


def exc(name):
    return Boom if name == 'Boom' else getattr(
        __import__('builtins'), name)


HOOKS = []


def wrapper_of(wrapper, real):
    wrapper.target[0] = real
    return wrapper


class Inject:
    """Raises at the n-th call (n = None: only counts) of the fault point."""

    def __init__(self, kind, arg, n, e):
        self.kind, self.arg, self.n, self.e = kind, arg, n, e
        self.calls = 0
        self.last_input = self.done = None
        self.undo = []

    def patch(self, obj, name, when=lambda a, k: True):
        real = core.seam(obj, name) if isinstance(obj, str) else \
            getattr(obj, name)
        if isinstance(obj, str):
            import importlib
            parts = name.split('.')
            obj = importlib.import_module(obj)
            for p in parts[:-1]:
                obj = getattr(obj, p)
            name = parts[-1]

        def wrapper(*a, **k):
            if when(a, k):
                self.calls += 1
                if self.n is not None and self.calls == self.n:
                    self.last_input = a[0] if a else None
                    if self.kind == 'corrupt':
                        self.done = corrupted(target[0](*a, **k))
                        return self.done
                    raise exc(self.e)('injected')
            return target[0](*a, **k)
        target = [real]
        wrapper.target = target
        wrapper.__name__ = getattr(real, '__name__', name)
        code = getattr(real, '__code__', None)
        if isinstance(real, types.FunctionType) and not real.__closure__:
            # the function itself: whoever holds it meets the fault
            key = len(HOOKS)
            real0 = types.FunctionType(code, real.__globals__, real.__name__,
                                       real.__defaults__)
            real0.__kwdefaults__ = real.__kwdefaults__
            HOOKS.append(wrapper_of(wrapper, real0))
            ns = {}
            exec('def %s(*a, **k):\n    import mc.checks.c23 as c\n'
                 '    return c.HOOKS[%d](*a, **k)' % (
                     name if name.isidentifier() else 'f', key), ns)
            stub = ns[name]
            self.undo.append((real, None, (code, real.__defaults__,
                                           real.__kwdefaults__)))
            real.__code__ = stub.__code__
            real.__defaults__ = real.__kwdefaults__ = None
            return
        self.undo.append((obj, name, real))
        setattr(obj, name, wrapper)

    def __enter__(self):
        k = self.kind
        if k in ('stage', 'corrupt'):
            self.patch('plycutter.heuristics', self.arg)
        elif k == 'create':
            self.patch('plycutter.sheetbuild', 'create_sheetbuild')
        elif k == 'sheetplex':
            self.patch('plycutter.create_sheetplex', 'create_sheetplex')
        elif k == 'check':
            self.patch('plycutter.sheetbuild', 'SheetBuild.check')
        elif k == 'final':
            self.patch('plycutter.sheetbuild', 'SheetBuild.check',
                       lambda a, kw: kw.get('force') or len(a) > 1 and a[1])
        elif k == 'writer':
            self.patch('plycutter.writer', 'write_dxf')
        elif k == 'saveas':
            self.patch('ezdxf.document', 'Drawing.saveas')
        elif k == 'line':
            self.patch('ezdxf.layouts', 'Modelspace.add_lwpolyline')
        elif k == 'op':
            from plycutter.geometry.geom2d import Geom2D
            for nm in ('__and__', '__or__', '__sub__', 'buffer',
                       'project_to_1d'):
                self.patch(Geom2D, nm)
        return self

    def __exit__(self, *a):
        for obj, name, real in reversed(self.undo):
            if name is None:
                obj.__code__, obj.__defaults__, obj.__kwdefaults__ = real
            else:
                setattr(obj, name, real)
        self.undo = []
        del HOOKS[:]


def corrupted(sb):
    """The build with something cut that is not possible."""
    from plycutter.geometry.geom2d import Geom2D
    far = Geom2D.polygon([(Q(x), Q(y)) for x, y in (
        (5000, 5000), (5010, 5000), (5010, 5010))], reorient=True)
    k = sorted(sb.sheet_chosen.keys())[0]
    return sb.set('sheet_chosen', sb.sheet_chosen.set(
        k, sb.sheet_chosen[k] | far))


LATE = ('writer', 'saveas', 'line', 'sheetplex')


def work(item, rec):
    kind, m, arg = item
    if kind == 'nosheets':
        for mode in ('cli', 'cli_old'):
            rec.check([kind, m, None, 0, None, mode])
        return
    a = arg if kind in ('stage', 'corrupt') else None
    ctl = Inject(kind, a, None, None)
    with ctl:
        _, exc_ = cli(m, True)
    if exc_ is not None:
        rec.violate([kind, m, a, None, None, 'cli'],
                    'fails without a fault: %r' % exc_)
        return
    n = ctl.calls
    rec.count('fault_points', n if not isinstance(arg, list) or arg[0] == 0
              else 0)
    if not n:
        rec.skipped.append('%s %s' % (kind, arg))
        return
    for i in range(1, n + 1):
        if isinstance(arg, list) and i % arg[1] != arg[0]:
            continue
        if kind == 'corrupt':
            es = [None]
        elif kind in ('stage', 'create', 'final') and m == P0:
            es = EXC
        else:
            es = [EXC[i % len(EXC)]]
        for e in es:
            for mode in (['cli', 'cli_old'] if e == es[0] else ['cli']):
                rec.check([kind, m, a, i, e, mode])
            if kind not in LATE:
                for mode in ('api', 'api_ret') + (
                        ('api_no',) if e == es[0] else ()):
                    rec.check([kind, m, a, i, e, mode])
            if rec.stop:
                return


def cli(m, old):
    """(files afterwards, exception)"""
    main = core.seam('plycutter.command_line', 'main')
    root = os.path.abspath('c23-%d' % os.getpid())
    os.makedirs(root)
    try:
        p = os.path.join(root, 'm.stl')
        if m == ['panels', []]:
            import trimesh
            trimesh.creation.box((40, 40, 40)).export(p)
        else:
            models.mesh(m).export(p)
        if old:
            with open(os.path.join(root, 'm.dxf'), 'w') as f:
                f.write('older')
        try:
            main([p])
            e = None
        except Exception as x:
            e = x
        except SystemExit as x:     # 0 or None tells success
            e = x if x.code else None
        files = {}
        for n in sorted(os.listdir(root)):
            if n != 'm.stl':
                with open(os.path.join(root, n)) as f:
                    files[n] = f.read(5)
        return files, e
    finally:
        shutil.rmtree(root, ignore_errors=True)


_sp = {}


def run_case(case, rec):
    kind, m, arg, n, e, mode = case
    if kind == 'nosheets':
        files, err = cli(m, mode == 'cli_old')
        rec.outcome(case)
        if err is None:
            return 'a model without sheets gives no error'
        if files != ({'m.dxf': 'older'} if mode == 'cli_old' else {}):
            return 'the failed run left files %s' % files
        return None
    inj = Inject(kind, arg, n, e)
    if mode.startswith('api'):
        if str(m) not in _sp:
            _sp[str(m)] = models.sheetplex(m)
        sp = _sp[str(m)]
        from plycutter import canned
        prm = models.params()
        if mode != 'api':
            prm['return_on_failure'] = mode == 'api_ret'
        err = res = None
        with inj:
            try:
                res = canned.canned_1(sp, prm)
            except (Exception, SystemExit) as x:
                err = x
        if inj.calls < n:
            return None     # this point is only reached from main
        rec.outcome(case)
        if mode != 'api_ret':
            if not isinstance(err, exc(e) if e else Exception):
                return 'a fault in %s %s is not reported: %r' % (
                    kind, arg, err or res.ok)
            return None
        if err is not None:
            return 'return_on_failure: raised %r' % err
        if res.ok:
            return 'return_on_failure: ok although %s %s failed' % (
                kind, arg)
        if kind == 'stage' and res.sheetbuild is not inj.last_input and \
                any(res.sheetbuild[f] is not inj.last_input[f] for f in
                    ('sheet_chosen', 'sheet_ok', 'interside_ok',
                     'interside_chosen')):
            return 'return_on_failure: not the last good build'
        if kind == 'stage' and not res.history:
            return 'return_on_failure: no history'
        if kind == 'create' and res.sheetbuild is not None:
            return 'return_on_failure: a build although none was created'
        return None
    with inj:
        files, err = cli(m, mode == 'cli_old')
    if inj.calls < n:
        rec.count('not_reached')    # fewer calls when run again
        return None
    rec.outcome(case)
    if kind == 'corrupt' and inj.done is None:
        raise AssertionError('no spoilt build: %r' % err)
    if err is None:
        return 'a fault in %s %s is swallowed by the command line' % (
            kind, arg)
    if files != ({'m.dxf': 'older'} if mode == 'cli_old' else {}):
        return 'the failed run left files %s' % files
    return None
