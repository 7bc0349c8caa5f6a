"""C07: the training loop runs exactly the requested steps, saves, evaluations.

Random jobs (configuration, action results, preemptions, crashes, restarts) are
run through the real train(); TLC checks every recorded history against
spec/TrainLoop.tla, which itself is checked exhaustively for small bounds.
"""
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 1


def config(r):
    base = r.choice([1, 2, 2, 3, 4, 5])
    mult = [0, 1, 1, 2, 2, 3]
    te, ie = r.random() < 0.6, r.random() < 0.4
    p, e, g = (base * r.choice(mult) for _ in range(3))
    if r.random() < 0.75:
        g = 0
    if r.random() < 0.04:
        p, e = base * 2 + 1, base + 1
    total = r.randint(1, 16)
    listed = sorted(r.sample(range(0, total + 3), r.choice([0, 0, 0, 1, 2, 3, 4])) if r.random() < 0.7 else [])
    listed = [x for x in listed if x <= total + 2]
    order = list(listed)
    if r.random() < 0.15:
        r.shuffle(order)
    if listed and r.random() < 0.1:
        order.append(r.choice(listed))
    return dict(init=r.choice([0, 0, 0, 0, 1, 3, 7]), total=total,
                rel=r.choice([0, 0, 0, 0, 3, 6]), period=p, listed=listed, order=order,
                evalp=e, stats=r.choice([0, 0, 1, 2, 3, 5, 100]), gcp=g, te=te, ie=ie,
                before=r.random() < 0.25, conc=r.random() < 0.4, orbax=r.random() < 0.5,
                acts=[m for m in ('TRAIN', 'TRAIN_EVAL', 'INFER_EVAL') if r.random() < 0.4],
                nacts=r.choice([1, 1, 2, 3]), nolist=r.choice([None, []]), nosave=r.random() < 0.5)


def jobs(item):
    from harness import trainloop as T, zoo
    from t5x import trainer
    seed, num = item
    r = random.Random(seed)
    part = zoo.partitioner(1, 1)
    out = []
    for i in range(num):
        c = config(r)
        T.EV.clear()
        disk = set()
        for k in range(r.choice([1, 1, 2, 3])):
            fail, exc = -1, T.Boom
            if r.random() < 0.45:
                fail = r.randint(2, 12)   # (the first batch is fetched before the loop)
                exc = r.choice([T.Boom, trainer.PreemptionError])
            acts = [r.random() < r.choice([0, 0.08, 0.3]) for _ in range(40)]
            if not T.run(c, disk, acts, fail, exc, part):
                break
        out.append(dict(cfg={k: c[k] for k in (
            'init', 'total', 'rel', 'period', 'listed', 'evalp', 'stats', 'gcp', 'te', 'ie',
            'before', 'conc', 'orbax', 'acts')}, nacts=c['nacts'], order=c['order'], ev=list(T.EV),
            id='seed %d job %d' % (seed, i)))
    return out


PROPS = ['OneByOne', 'Resumes', 'NoTrainingAfterStop', 'DiskGrows', 'Terminates']
CONFIG = ('{[init |-> i, total |-> %s, rel |-> rl, period |-> p, listed |-> L, evalp |-> e, '
          'stats |-> st, gcp |-> g, te |-> te_, ie |-> FALSE, before |-> b, conc |-> FALSE, '
          'orbax |-> o, acts |-> a] : i \\in {0, 1}, rl \\in %s, p \\in %s, L \\in %s, e \\in %s, '
          'st \\in %s, g \\in %s, te_ \\in BOOLEAN, b \\in %s, o \\in BOOLEAN, a \\in %s}')


def design(chk):
    if chk.thorough:
        cs = CONFIG % (6, '{0, 2}', '{0, 1, 2, 3, 6}', '{{}, {1}, {3}, {2, 5}, {6}}', '{2, 3}', '{0, 2}',
                       '{0, 1}', 'BOOLEAN', '{{}, {"TRAIN"}, {"TRAIN", "TRAIN_EVAL"}}')
    else:
        cs = CONFIG % (4, '{0}', '{0, 2, 3}', '{{}, {3}, {1, 4}}', '{2}', '{0, 1}', '{0}', '{FALSE}',
                       '{{}, {"TRAIN", "TRAIN_EVAL"}}')
    st = tlc.check('TrainLoop', cfg(
        spec='Spec', constants=dict(Configs=Raw(cs), MaxRuns=2),
        invariants=['TypeOK', 'Fulfilled', 'EvalsAtBoundaries', 'NeverPastTotal'], properties=PROPS))
    chk.spec('TrainLoop', st)


def run(chk):
    design(chk)
    hist = []
    for rs in pool.pmap(chk, 'harness.checks.c07', 'jobs',
                        [(chk.seed * 1000 + k, chk.n(50, 700)) for k in range(8)], procs=8, devices=1):
        hist += rs or []
    hist = hist_validate(chk, hist)


def hist_validate(chk, hist):
    reached, st = tlc.validate('TrainLoopTrace', cfg(
        spec='TSpec', constants=dict(Configs=Raw('{}'), MaxRuns=100),
        constraints=['Track'], postcondition='Report'), hist)
    chk.spec('TrainLoopTrace', st)
    count = {}
    for h, n in zip(hist, reached):
        for e in h['ev']:
            count[e['e']] = count.get(e['e'], 0) + 1
        if n < len(h['ev']):
            chk.violation(h['id'], 'configuration %s: after %s the loop did %s' % (
                h['cfg'], h['ev'][max(0, n - 6):n], h['ev'][n]), h)
    chk.validated(len(hist), hist[0])
    chk.note(events=count)
    return hist
