"""C13: batch inference to files survives interruption without loss or duplication.

The real infer() runs small jobs; after every file operation a picture of its
directory is taken.  The job is started again from pictures (crashes), from
pictures of restarted jobs, after exceptions in the model and in writing, and
once more when finished; TLC validates every history (spec/InferJobTrace.tla).
"""
import random
import shutil
import tempfile

from harness import pool, tlc
from harness.tlc import cfg


def configs(seed, num):
    r = random.Random('c13 %d' % seed)
    out = []
    for i in range(num):
        shards = r.choice([1, 1, 2, 3])
        out.append(dict(mode=['predict', 'score', 'predict_with_aux'][i % 3], n=r.choice([1, 3, 4, 7, 8, 11]) + shards - 1,
                        batch=r.choice([1, 2, 3]), period=r.choice([1, 2, 2]), shards=shards, shard=r.randrange(shards),
                        tasks=r.choice([1, 1, 2]), ckpt=bool(i % 4 < 2) or i % 8 == 3, merge=bool((i // 2) % 2 == 0) or i % 8 == 6,
                        extension=r.choice(['jsonl', 'txt'])))
    return out


def histories(item):
    from harness import filejob
    conf, seed, pics, deep = item
    r = random.Random('c13h %r %d' % (conf, seed))
    d = tempfile.mkdtemp(prefix='c13')
    out = []
    try:
        job = filejob.Job(d, conf['mode'], conf['n'], conf['batch'], conf['period'], conf['shards'], conf['shard'],
                          conf['tasks'], conf['ckpt'], conf['merge'], conf['extension'])

        def give(ev, how):
            out.append(dict(rows=job.rows(), ev=ev, how=how))

        def pick(xs, k):
            return xs if len(xs) <= k else [xs[i] for i in sorted(r.sample(range(len(xs)), k))]
        w = job.run(seed=seed)
        job.learn(w.last)
        a = job.run(w.last)             # finished already
        give(w.events + a.events, 'none')
        if a.events[-1]['op'] != 'end':
            return out
        calls = sum(e['op'] == 'infer' for e in w.events)
        for k, pic in pick(w.pics, pics):
            v = job.run(pic, seed=r.randrange(1000))
            ev = w.events[:k] + ([dict(op='crash')] if w.events[k - 1]['op'] != 'end' else []) + v.events
            give(ev, 'crash')
            for k2, pic2 in pick(v.pics, deep if deep > 1 or r.random() < .4 else 0):
                u = job.run(pic2, seed=r.randrange(1000))
                give(ev[:len(ev) - len(v.events)] + v.events[:k2] +
                     ([dict(op='crash')] if v.events[k2 - 1]['op'] != 'end' else []) + u.events, 'crash twice')
        for kw in [dict(die=i) for i in pick(range(1, calls + 1), deep)] + \
                [dict(bad_write=i) for i in pick(range(1, calls + 1), deep)]:
            v = job.run(**kw)
            u = job.run(v.last)
            give(v.events + u.events, str(kw))
    finally:
        shutil.rmtree(d)
    return out


def run(chk):
    for ci in (True, False):
        for m in (True, False):
            st = tlc.check('InferFiles', cfg(spec='Spec', constants=dict(K=chk.n(3, 4), CkptIter=ci, Merge=m, MaxCrash=chk.n(2, 3)),
                                             invariants=['Whole', 'NeverStuck'], properties=['Finishes', 'Ends', 'Refines']))
            chk.spec('InferFiles iterator checkpoint=%s merge=%s' % (ci, m), st)
    confs = configs(chk.seed, chk.n(24, 96))
    items = [(c, chk.seed, chk.n(10, 1000), chk.n(1, 3)) for c in confs]
    hist = []
    for h in pool.pmap(chk, 'harness.checks.c13', 'histories', items, procs=8):
        hist += h or []
    reached, st = tlc.validate('InferJobTrace', cfg(spec='TSpec', constraints=['Track'], postcondition='Report'),
                               [dict(rows=h['rows'], ev=h['ev']) for h in hist])
    chk.spec('InferJobTrace', st)
    for h, k in zip(hist, reached):
        if k != len(h['ev']):
            chk.violation('history', '%s: rows %s, event %d of %s' % (h['how'], h['rows'], k, str(h['ev'])[:1500]), h)
    chk.validated(len(hist), hist[-1] if hist else None)
    kinds = {}
    for h in hist:
        kinds[h['how'].split(':')[0]] = kinds.get(h['how'].split(':')[0], 0) + 1
    chk.note(configurations=len(confs), histories=kinds)
