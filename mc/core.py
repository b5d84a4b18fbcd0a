"""Harness core: bounded exhaustive exploration of the real plycutter code.

A check module (mc/checks/<pid>.py) provides

  PID, LEVEL, RULE, ASSUMPTIONS
  items(tier)            -> list of JSON-able work items; together they are the
                            whole bounded space
  work(item, rec)        -> explores one item in a worker process, calling
                            rec.check(case) for every case (a JSON-able value)
  run_case(case, rec)    -> runs ONE case against the real code and the oracle;
                            returns None, or a message when the property fails

Any exception, and any case that burns more CPU time than the limit, is a
violation too: all cases are valid uses of the API.
"""
import collections
import concurrent.futures as cf
from concurrent.futures.process import BrokenProcessPool
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORKERS = max(1, min(8, os.cpu_count() or 1))


class SeamMissing(Exception):
    """An internal entry point the check drives no longer exists (refactored
    away): that part of the exploration is skipped and reported as skipped."""


class CaseTimeout(BaseException):
    pass


def seam(module, name):
    try:
        obj = importlib.import_module(module)
        for part in name.split('.'):
            obj = getattr(obj, part)
        return obj
    except (ImportError, AttributeError):
        raise SeamMissing('%s.%s' % (module, name))


def h64(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


def _on_prof(signum, frame):
    raise CaseTimeout()


def where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    inner = [f for f in tb if '/plycutter/' in f.filename] or list(tb)
    f = inner[-1]
    return '%s:%s in %s' % (f.filename.replace(REPO + '/', ''), f.lineno,
                            f.name)


def raised(e):
    return 'raised %s at %s: %s' % (type(e).__name__, where(e), str(e)[:300])


class Recorder:
    """Collects what one worker explored."""

    MAX_VIOL = 3

    def __init__(self, mod, item, cpu_limit):
        self.mod = mod
        self.item = item
        self.cpu_limit = cpu_limit
        self.counts = collections.Counter()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.skipped = []
        self.stop = False

    def count(self, name, n=1):
        self.counts[name] += n

    def outcome(self, obj):
        self.outcomes.add(h64(obj))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violate(self, case, msg):
        self.violations.append({'case': case, 'message': msg})
        if len(self.violations) >= self.MAX_VIOL:
            self.stop = True

    def guarded(self, case, fn):
        """Run fn; an exception or a CPU-time overrun is a violation.
        Returns (ok, value)."""
        signal.setitimer(signal.ITIMER_PROF, self.cpu_limit)
        try:
            v = fn()
            signal.setitimer(signal.ITIMER_PROF, 0)
            return True, v
        except SeamMissing as e:
            self.skipped.append(str(e))
            self.stop = True
            return False, None
        except CaseTimeout:
            self.violate(case, 'does not terminate within %ss of CPU time'
                         % self.cpu_limit)
        except RecursionError as e:
            self.violate(case, 'raised RecursionError at ' + where(e))
        except KeyboardInterrupt:
            raise
        except BaseException as e:      # SystemExit included
            self.violate(case, raised(e))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return False, None

    def check(self, case):
        """Run one case; returns False when the property failed on it."""
        self.count('evaluations')
        if self.counts['evaluations'] in (1, 7):
            self.sample(case)
        ok, msg = self.guarded(case, lambda: self.mod.run_case(case, self))
        if ok and msg is not None:
            self.violate(case, msg)
            return False
        return ok


def _quiet():
    logging.disable(logging.CRITICAL)
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)


def _init_worker():
    signal.signal(signal.SIGPROF, _on_prof)
    _quiet()
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def _run_item(modname, item, cpu_limit):
    mod = importlib.import_module(modname)
    rec = Recorder(mod, item, cpu_limit)
    t0 = time.process_time()
    try:
        mod.work(item, rec)
    except SeamMissing as e:
        rec.skipped.append(str(e))
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        # while preparing the cases: also a failure of the code under test
        rec.violate({'__item__': item}, raised(e))
    rec.counts['work_items'] += 1
    return dict(counts=dict(rec.counts), outcomes=rec.outcomes,
                samples=rec.samples, violations=rec.violations,
                skipped=rec.skipped, cpu=time.process_time() - t0,
                item=item)


def known_findings(pid):
    """[(case_json, what)] listed as known for the property."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                d = json.loads(line.split(' ', 2)[2])
                out.append((json.dumps(d['case'], sort_keys=True), d['what']))
    return out


def load(pid):
    return importlib.import_module('mc.checks.%s' % pid.lower())


def import_repo():
    sys.path.insert(0, REPO)
    for k in [k for k in sys.modules if k.startswith('plycutter')]:
        del sys.modules[k]
    import plycutter
    assert plycutter.__file__.startswith(REPO + '/'), plycutter.__file__


def replay(pid, path):
    import_repo()
    signal.signal(signal.SIGPROF, _on_prof)
    logging.disable(logging.CRITICAL)
    mod = load(pid)
    case = json.load(open(path))['case']
    rec = Recorder(mod, None, getattr(mod, 'CPU_LIMIT', 60))
    if isinstance(case, dict) and '__item__' in case:
        rec.violations += _run_item(mod.__name__, case['__item__'],
                                    rec.cpu_limit)['violations']
        good = True
    else:
        good = rec.check(case)
    if good and not rec.violations:
        print('replay: property %s holds on this case' % pid)
        return 0
    for v in rec.violations:
        print('replay: %s: %s' % (json.dumps(v['case'])[:500], v['message']))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    import_repo()
    mod = load(pid)
    cpu_limit = getattr(mod, 'CPU_LIMIT', 60)
    items = list(mod.items(tier))
    # The seed only permutes the order in which the (complete) space is
    # explored and picks the samples shown.
    items.sort(key=lambda it: h64((seed, json.dumps(it, sort_keys=True))))
    if hasattr(mod, 'weight'):
        items.sort(key=lambda it: -mod.weight(it))
    known = known_findings(pid)
    known_keys = {k for k, _ in known}

    counts = collections.Counter()
    outcomes = set()
    samples = []
    violations = []
    known_hit = {}
    skipped = set()
    cpu = 0.
    scratch = tempfile.mkdtemp(prefix='plyverif-')
    cwd = os.getcwd()
    os.chdir(scratch)
    done = 0
    slow = []
    try:
        ctx = multiprocessing.get_context('fork')
        with cf.ProcessPoolExecutor(WORKERS, mp_context=ctx,
                                    initializer=_init_worker) as ex:
            futs = {ex.submit(_run_item, mod.__name__, it, cpu_limit): it
                    for it in items}
            for f in cf.as_completed(futs):
                if f.cancelled():
                    continue
                try:
                    r = f.result()
                except BrokenProcessPool as e:
                    # the code under test ended the process
                    violations.append({'case': {'__item__': futs[f]},
                                       'message': 'the process died: %s' % e})
                    break
                done += 1
                counts.update(r['counts'])
                outcomes |= r['outcomes']
                samples.extend(r['samples'])
                skipped |= set(r['skipped'])
                cpu += r['cpu']
                slow.append((round(r['cpu'], 1), str(r['item'])[:80]))
                for v in r['violations']:
                    k = json.dumps(v['case'], sort_keys=True)
                    if k in known_keys:
                        known_hit[k] = v
                    else:
                        violations.append(v)
                if violations:
                    for g in futs:
                        g.cancel()
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)

    violations.sort(key=lambda v: len(json.dumps(v['case'])))
    for k, what in known:
        if k in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
    cov = dict(getattr(mod, 'coverage', lambda c: {})(counts))
    cov.setdefault('rule', mod.RULE)
    cov['distinct_nontrivial'] = len(outcomes)
    if mod.LEVEL == 'model_checking':
        cov['states'] = counts['states']
        cov['transitions'] = counts['transitions']
        # every case is a model trace executed on the real code and compared
        cov['traces_validated_against_impl'] = counts['evaluations']
    else:
        cov['evaluations'] = counts['evaluations']
    for k, v in sorted(counts.items()):
        if k not in ('evaluations', 'states', 'transitions'):
            cov.setdefault('n_' + k, v)
    cov['bounds'] = mod.bounds(tier)
    cov['exhaustive'] = bool(not violations and not skipped
                             and done == len(items)
                             and not counts.get('capped'))
    if skipped:
        cov['skipped_missing_entry_points'] = sorted(skipped)
    samples.sort(key=lambda s: h64((seed, repr(s))))
    cov['samples'] = samples[:6] or ['(none)']
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d evaluations, %d distinct outcomes, %s work items, '
          'cpu %.0fs wall %.0fs' % (
              pid, tier, counts['evaluations'], len(outcomes),
              '%d/%d' % (done, len(items)), cpu, time.time() - t0))
    if 'states' in counts:
        print('  states=%d transitions=%d' % (
            counts['states'], counts['transitions']))
    if os.environ.get('VERIF_SLOW'):
        for s in sorted(slow, reverse=True)[:12]:
            print('  slow', s)
        print('  counts', dict(counts))
    if skipped:
        print('  skipped (entry points not found): %s' % sorted(skipped))
    for i, v in enumerate(violations[:3]):
        path = os.path.join(VERIF, 'evidence', 'replay',
                            '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, case=v['case'],
                           message=v['message']), f, indent=1)
        print('  case %s' % json.dumps(v['case'])[:600])
        print('  %s' % v['message'][:600])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if violations else 0
