"""Same input, same result, in every process."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from .. import core

PID = 'C21'
LEVEL = 'exploration'
CPU_LIMIT = 900
RULE = ('the whole pipeline is run in fresh processes under a set of string '
        'hash seeds that realises every iteration order of the sheet map '
        'and every iteration order of the joint map (3 panels: 6 x 6), and '
        'after unrelated work (other models, other random draws) in the '
        'same process: every run must produce the same sheets, the same '
        'joint decisions and the same set of closed curves. Distinct = '
        '(model, iteration orders met).')
ASSUMPTIONS = ['the nondeterminism of one process is its string hash seed, '
               'object addresses and state left by earlier work']
S3 = [1, 3, 4, 5, 6, 8, 7, 25, 33]
S3ALL = [1, 3, 4, 5, 6, 7, 8, 9, 10, 13, 19, 22, 23, 24, 25, 29, 31, 33, 34,
         35, 38, 40, 41, 42, 45, 46, 48, 55, 56, 60, 64, 68, 76, 78, 79, 104]
S4 = [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 15, 17, 20, 22, 23, 24, 40, 42, 50,
      53, 54, 65, 122]


def plan(tier):
    out = [[['panels', [0, 4]], {}, [1, 2]],
           [['panels', [0, 4]], {'random_seed': 5}, [1, 2]],
           [['panels', [0, 4]], {'random_seed': 0}, [1, 2]],
           ['gap', {}, [1, 2]],
           [['panels', [0, 2, 4]], {}, S3],
           ['off', {}, S3[:6]],
           [['cup', 'tri'], {}, S3[:4]]]
    if tier == 'thorough':
        out += [[['panels', [0, 2, 4]], {'random_seed': 3}, S3ALL],
                [['panels', [1, 3, 5]], {}, S3ALL],
                ['Tbox', {}, S3ALL], ['TT', {}, S3ALL], ['H', {}, S3ALL],
                ['corner3', {}, S3ALL], [['cup', 'hex'], {}, S3[:5]],
                [['cup', 'tri'], {'random_seed': 2}, S3],
                [['panels', [0, 1, 2, 4]], {}, S4]]
    return out


def bounds(tier):
    return dict(runs=plan(tier))


def items(tier):
    out = []
    for m, p, seeds in plan(tier):
        for s in seeds[1:]:
            out.append([m, p, seeds[0], s, 0])
        out.append([m, p, seeds[0], seeds[0], 7])
    # one work item per model: the reference run is shared
    by = {}
    for c in out:
        by.setdefault(json.dumps(c[:3]), []).append(c)
    return sorted(by.values(), key=len)


def weight(it):
    return len(it)


_memo = {}


def run(m, p, seed, noise):
    key = json.dumps([m, p, seed, noise])
    if key not in _memo:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        r = subprocess.run(
            [sys.executable, '-B', '-W', 'ignore', '-m', 'mc.detrun',
             json.dumps([m, p, noise])], cwd=core.VERIF, env=env,
            capture_output=True, text=True, timeout=600)
        res = None
        for line in r.stdout.splitlines():
            if line.startswith('RESULT '):
                res = json.loads(line[7:])
        _memo[key] = res if res is not None else \
            'run fails: ' + r.stderr.strip()[-300:]
    return _memo[key]


def work(item, rec):
    c0 = item[0]
    jobs = [(c0[0], c0[1], c0[2], 0)] + \
        [(c[0], c[1], c[3], c[4]) for c in item]
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda j: run(*j), jobs))
    for c in item:
        rec.check(c)


def run_case(case, rec):
    m, p, s0, s1, noise = case
    a = run(m, p, s0, 0)
    b = run(m, p, s1, noise)
    for x in (a, b):
        if isinstance(x, str):
            return x
    rec.outcome((m, str(p), str(a[0])))
    rec.outcome((m, str(p), str(b[0]), noise))
    if a[2] != b[2]:
        return 'other sheets or joint decisions in the second process'
    if a[1] != b[1]:
        return 'other curves in the second process'
    return None
