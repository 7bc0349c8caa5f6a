"""C08: interrupting and resuming training equals an uninterrupted run.

Real jobs (real train(), trainer, data iterator, checkpoints; a small model
whose parameters record which batch each step consumed) are stopped by crash,
preemption, early stop or a smaller step limit and restarted; TLC checks the
batches read and a digest of the whole state after every chunk against
spec/TrainResume.tla.
"""
import random
import shutil
import tempfile

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 4


def config(r):
    period = r.choice([0, 2, 2, 3, 4, 5])
    return dict(evalp=r.choice([0, 0, period]), warm=r.choice([0, 0, 0, 3]), mesh=r.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2)]),
                opt=r.choice(['sgd', 'sgd', 'adam', 'adafactor', 'multi', 'chain']),
                mutables=r.random() < 0.3, batch=4, micro=r.choice([None, None, 1, 2]),
                period=period, listed=None if period and r.random() < 0.5 else sorted(
                    r.sample(range(1, 9), r.randint(1, 3))),
                keep=r.choice([None, None, 1, 2]), keep_ds=r.choice([None, None, 1, 2]),
                save_dataset=r.random() < 0.75, stats=r.choice([0, 1, 1, 2, 3]),
                seed=r.choice([0, 1, 42]), orbax=r.random() < 0.5)


def jobs(item):
    from harness import realtrain as R
    from t5x import trainer
    seed, num = item
    r = random.Random(seed)
    out = []
    ref = [tuple(b['id'].tolist()) for b, _ in zip(R.dataset(4).as_numpy_iterator(), range(60))]
    for k in range(num):
        c = config(r)
        root = tempfile.mkdtemp()
        warm = None
        if c['warm']:
            pre = tempfile.mkdtemp()
            R.Job(dict(c, period=1, keep=None, seed=77), pre, ref).run(c['warm'])
            warm = '%s/checkpoint_%d' % (pre, c['warm'])
        job = R.Job(c, root, ref)
        total = c['warm'] + r.randint(5, 9)
        plan = []
        for _ in range(r.randint(1, 3)):
            how = r.choice(['crash', 'crash', 'preempt', 'stop', 'short'])
            n = r.randint(2, 5)
            plan.append((how, n))
            if how == 'crash':
                job.run(total, warm=warm, fail_at=n)
            elif how == 'preempt':
                job.run(total, warm=warm, fail_at=n, exc=trainer.PreemptionError)
            elif how == 'stop':
                job.run(total, warm=warm, stop_at=n + c['warm'])
            else:
                have = [e['s'] for e in job.ev if e['e'] == 'begin']
                first = max([c['warm']] + job.ev[-1]['have']) if have else c['warm']
                job.run(min(total, first + n), warm=warm)
        job.run(total, warm=warm)
        # the same job without interruptions
        other = tempfile.mkdtemp()
        job2 = R.Job(dict(c, stats=1), other, ref)
        job2.run(total, warm=warm)
        out.append(dict(ev=job.ev + [dict(e='newdir')] + job2.ev, save_dataset=c['save_dataset'],
                        warm=c['warm'], cfg=repr(c), id='seed %d job %d %s %s' % (seed, k, plan, total)))
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(other, ignore_errors=True)
    return out


def run(chk):
    for sd, warm in ((True, 0), (False, 0), (True, 2), (False, 2)):
        st = tlc.check('TrainResume', cfg(
            spec='Spec', constants=dict(MaxSteps=warm + chk.n(4, 6), Warm=warm, SaveData=sd, MaxDeaths=chk.n(2, 3)),
            invariants=['SameAsUninterrupted', 'SameRandomness', 'Replays']))
        chk.spec('TrainResume SaveData=%s Warm=%d' % (sd, warm), st)
    hist = []
    for rs in pool.pmap(chk, 'harness.checks.c08', 'jobs',
                        [(chk.seed * 1000 + k, chk.n(3, 40)) for k in range(8)], procs=8, devices=4):
        hist += rs or []
    reached, st = tlc.validate('TrainResumeTrace', cfg(
        spec='TSpec', constants=dict(MaxSteps=100, Warm=0, SaveData=True, MaxDeaths=100),
        constraints=['Track'], postcondition='Report'), hist)
    chk.spec('TrainResumeTrace', st)
    for h, n in zip(hist, reached):
        if n < len(h['ev']):
            chk.violation(h['id'], 'configuration %s: after %s came %s' % (
                h['cfg'], h['ev'][max(0, n - 6):n], h['ev'][n]), h)
    chk.validated(len(hist), hist[0] if hist else None)
    chk.note(jobs=[h['id'] for h in hist[:30]])
