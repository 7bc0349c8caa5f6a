"""Check context: evidence, verdicts, known findings."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
REPO = os.environ.get('T5X_REPO', '/repo')


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v) for v in x), key=repr)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.level = 'model_checking'
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []      # (key, what, detail)
        self.parts = []
        self.known = load_known(pid)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def spec(self, name, stats):
        """Records an exhaustive (or trace) TLC run."""
        self.cov['states'] += stats.get('states', 0)
        self.cov['transitions'] += stats.get('transitions', 0)
        self.cov.setdefault('tlc_runs', []).append(dict(stats, model=name))

    def validated(self, n, sample=None):
        self.cov['traces_validated_against_impl'] += n
        if sample is not None and len(self.cov['samples']) < 6:
            self.cov['samples'].append(jsonable(sample))

    def note(self, **kw):
        for k, v in kw.items():
            self.cov[k] = jsonable(v)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def violation(self, key, what, detail=None):
        """key identifies the specific failing input/site/history."""
        self.violations.append((key, what, detail))
        if len(self.violations) <= 20:
            self.log('mismatch [%s]: %s' % (key, what))

    def too_many(self):
        return len(self.violations) >= 40

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        fresh = []
        for key, what, detail in self.violations:
            kf = next((k for k in self.known if matches(k, key)), None)
            if kf is not None:
                kf.setdefault('_hits', []).append(what)
            else:
                fresh.append((key, what, detail))
        for kf in self.known:
            if kf.get('_hits'):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['what']))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': self.level, 'coverage': self.cov,
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
            'violations': len(fresh),
        }
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(jsonable(ev), f, indent=1)
            f.write('\n')
        if fresh:
            rp = os.path.join(EVID, 'replay')
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, self.pid + '.json')
            with open(path, 'w') as f:
                json.dump([{'key': k, 'what': w, 'detail': jsonable(d)} for k, w, d in fresh[:40]],
                          f, indent=1)
            for k, w, _ in fresh[:10]:
                print('  %s: %s' % (k, w))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush()
            return 1
        print('OK property=%s' % self.pid)
        sys.stdout.flush()
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                r = json.loads(line)
                if r['property'] == pid:
                    out.append(r)
    return out


def matches(kf, key):
    return key == kf['key']


def from_repo(exc):
    """True if the exception was raised while the code under test was running."""
    tb = exc.__traceback__
    while tb:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def short_tb(exc):
    return ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-2500:]
