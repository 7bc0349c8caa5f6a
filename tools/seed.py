"""Creates /verif/seeded/<id>/ from seed definitions and confirms it.

usage: seed.py <definition file> [id ...]   (definitions: python, SEEDS list)
Each seed: id, property, edits [(file, old, new)], needs, breaks, demo (python
text), sim (True: put the host simulator beside the demo).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORK = '/tmp/seedwork'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def demo(d):
    tmp = '/tmp/seeddemo'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = sh('bash %s/demo.sh' % tmp, cwd=WORK)
    shutil.rmtree(tmp, ignore_errors=True)
    return r


def main():
    defs = runpy.run_path(sys.argv[1])['SEEDS']
    want = set(sys.argv[2:])
    test = os.environ.get('NOTEST') is None
    if os.path.exists(WORK):
        shutil.rmtree(WORK)
    sh('cp -a /repo %s && git -C %s checkout -q -- .' % (WORK, WORK))
    sh('rm -rf /tmp/seedplugins; cp -r /opt/vp/plugins /tmp/seedplugins && sed -i "s#/repo#%s#g" /tmp/seedplugins/*.py' % WORK)
    for s in defs:
        if want and s['id'] not in want:
            continue
        d = os.path.join(VERIF, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh('git checkout -q -- .', cwd=WORK)
        with open(d + '/demo.py', 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        shutil.copy(HERE + '/seedlib/boot.py', d)
        shutil.copy(HERE + '/seedlib/demo.sh', d)
        for extra in s.get('files', ()):
            shutil.copy(os.path.join(VERIF, extra), d)
        r = demo(d)
        ok1 = r.returncode == 0
        if not ok1:
            print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.returncode, (r.stdout + r.stderr)[-1500:])
            shutil.rmtree(d)
            continue
        bad = False
        for f, old, new in s['edits']:
            p = os.path.join(WORK, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'edit matches %d times in %s' % (t.count(old), f))
                bad = True
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            shutil.rmtree(d)
            continue
        diff = sh('git diff', cwd=WORK).stdout
        open(d + '/patch.diff', 'w').write(diff)
        r = demo(d)
        ok2 = r.returncode != 0
        ok3 = True
        if test and ok2:
            out = '/tmp/seed_test.json'
            t = sh('cd %s && sed -e "s#/repo#%s#g" -e "s#^. /opt/vp/env.sh#. /opt/vp/env.sh; export PYTHONPATH=/tmp/seedplugins:%s#" /opt/vp/test.sh > /tmp/seed_test.sh && bash /tmp/seed_test.sh %s' % (WORK, WORK, WORK, out))
            try:
                res = json.load(open(out))
                base = json.load(open('/opt/vp/BASELINE.json'))
                stable = base.get('stable') or base.get('passed') or base
                passed = set(res.get('passed') or [])
                missing = [x for x in stable if x not in passed]
                ok3 = not missing
                if missing:
                    print(s['id'], 'tests broken:', missing[:5], res.get('failed', [])[:5])
            except Exception as e:  # pylint: disable=broad-except
                print('test run unreadable', e, t.stdout[-500:], t.stderr[-500:])
                ok3 = False
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        print(s['id'], 'clean ok' if ok1 else '', 'demo fails with patch' if ok2 else 'DEMO PASSES WITH PATCH',
              'tests ok' if ok3 else 'TESTS BROKEN', r.stdout.strip()[-200:] if ok2 else '', flush=True)
        if not (ok2 and ok3):
            shutil.rmtree(d)
    sh('rm -rf /tmp/seedplugins ' + WORK)


main()
