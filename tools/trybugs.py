"""Runs checks against planted bugs in scratch copies of /repo.

usage: trybugs.py [-jN] [seed id or property ...]   (no argument: all)
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def one(sid):
    d = os.path.join(VERIF, 'seeded', sid)
    pid = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/try_' + sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
    r = subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], capture_output=True, text=True)
    if r.returncode:
        return sid, pid, 'PATCH DOES NOT APPLY', 0
    t = time.time()
    v = '/tmp/tryv_' + sid
    shutil.rmtree(v, ignore_errors=True)
    subprocess.run(['cp', '-a', VERIF, v], check=True)
    r = subprocess.run([v + '/check.sh', pid], cwd=v, capture_output=True, text=True,
                       env=dict(os.environ, T5X_REPO=w, VERIF_SEED='1'), timeout=1200)
    viol = any(l.startswith('VIOLATION property=%s ' % pid) for l in r.stdout.splitlines())
    shutil.rmtree(w)
    shutil.rmtree(v)
    res = 'caught' if r.returncode == 1 and viol else 'MISSED rc=%d %s' % (
        r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else '')
    return sid, pid, res, time.time() - t


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-j')]
    j = next((int(a[2:]) for a in sys.argv[1:] if a.startswith('-j')), 3)
    ids = sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    if args:
        ids = [i for i in ids if i in args or
               json.load(open(os.path.join(VERIF, 'seeded', i, 'meta.json')))['property'] in args]
    with cf.ThreadPoolExecutor(j) as ex:
        for sid, pid, res, dt in ex.map(one, ids):
            print('%-34s %s %5.0fs %s' % (sid, pid, dt, res), flush=True)


main()
