"""Tries edits (property, file, old, new) without demonstration: which does the property's check catch?

usage: mutants.py [-jN] [-t] file.py [prop ...]   (file: M = [(prop, file, old, new), ...]; -t: stable tests too)
"""
import concurrent.futures as cf
import os
import runpy
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def one(i, m):
    prop, f, old, new = m[:4]
    w, v = '/tmp/mut_%d' % i, '/tmp/mutv_%d' % i
    for d in (w, v):
        shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    s = open(w + '/' + f).read()
    if s.count(old) != 1:
        shutil.rmtree(w)
        return i, prop, 0, 'OLD TEXT OCCURS %d TIMES' % s.count(old), old.strip()[:60]
    open(w + '/' + f, 'w').write(s.replace(old, new))
    subprocess.run(['cp', '-a', VERIF, v], check=True)
    t = time.time()
    r = subprocess.run(['bash', v + '/check.sh', prop], capture_output=True, text=True, cwd=v,
                       env=dict(os.environ, T5X_REPO=w, VERIF_SEED='1'), timeout=1500)
    out = 'caught' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED rc=%d %s' % (
        r.returncode, (r.stdout + r.stderr)[-200:].replace('\n', ' ') if r.returncode else '')
    why = next((l for l in r.stdout.splitlines() if 'mismatch' in l), '')[:140]
    shutil.rmtree(w)
    shutil.rmtree(v)
    return i, prop, time.time() - t, out, '%s -> %s | %s' % (old.strip()[:50].replace('\n', ' '), new.strip()[:50].replace('\n', ' '), why)


def main():
    a = sys.argv[1:]
    j = 2
    if a[0].startswith('-j'):
        j = int(a.pop(0)[2:])
    M = runpy.run_path(a[0])['M']
    want = set(a[1:])
    with cf.ThreadPoolExecutor(j) as ex:
        fs = [ex.submit(one, i, m) for i, m in enumerate(M) if not want or m[0] in want or str(i) in want]
        for f in cf.as_completed(fs):
            i, p, t, o, w = f.result()
            print('%3d %s %4ds %-8s %s' % (i, p, t, o, w), flush=True)


main()
