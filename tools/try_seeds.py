"""Developer tool (not a check): run checks against planted changes.

  python3 tools/try_seeds.py [-j N] [-c C01,C02|all|own] [seed ids...]

Each planted change is applied to a throw-away copy of /repo that is
bind-mounted over /repo in a private mount namespace, so that /repo itself is
never touched."""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=2)
ap.add_argument('-c', default='own')
ap.add_argument('-b', default='/repo', help='base tree')
ap.add_argument('-p', help='apply this patch file instead of a seed')
ap.add_argument('-d', default=os.path.join(V, 'seeded'))
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
man = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def one(sid):
    patch = a.p or os.path.join(a.d, sid, 'patch.diff')
    t = tempfile.mkdtemp(prefix='seed_%s_' % sid)
    try:
        subprocess.check_call(['cp', '-a', a.b, t + '/repo'])
        subprocess.check_call(['git', 'clone', '-q', V, t + '/verif'])
        subprocess.check_call('cd %s && git ls-files -mo --exclude-standard | xargs -r -I{} cp {} %s/{}' % (V, t + '/verif'), shell=True)
        subprocess.check_call(['git', '-C', t + '/repo', 'apply', patch])
        if a.c == 'own':
            cs = [json.load(open(os.path.join(a.d, sid, 'meta.json')))['property']]
        elif a.c == 'all':
            cs = man
        else:
            cs = a.c.split(',')
        res = []
        for c in cs:
            t0 = time.time()
            r = subprocess.run(
                ['unshare', '-Urm', 'bash', '-c',
                 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && '
                 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash run.sh %s' % (t, t, c)],
                capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            x = [l for l in r.stdout.splitlines() if 'what' in l.lower() or 'fail' in l.lower()][:2]
            ok = r.returncode == 1 and any('property=%s ' % c in l for l in v)
            res.append((c, 'CAUGHT' if ok else 'quiet' if r.returncode == 0 else 'rc%d' % r.returncode,
                        '%.0fs' % (time.time() - t0), [w[:160] for w in x] if ok else r.stderr[-300:]))
        return sid, res
    finally:
        shutil.rmtree(t, ignore_errors=True)


ids = a.ids or sorted(os.listdir(a.d))
with ThreadPoolExecutor(a.j) as ex:
    for sid, res in ex.map(one, ids):
        for r in res:
            print(sid, *r, flush=True)
