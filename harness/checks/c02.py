"""C02: retention keeps the newest checkpoints and never deletes a pinned one."""
import os
import random
import shutil
import tempfile

DEVICES = 4


def replay(beh, root, keep, keepds, rng, n=1, shards=1, stepmap=None):
    """Drives the real checkpointer along a behaviour of CkptStore."""
    from harness import ckpt
    shutil.rmtree(root, ignore_errors=True)
    job = ckpt.Job(root + '/model', n, shards, rng=rng)
    kw = {'keep': keep or None, 'keep_dataset_checkpoints': keepds or None}
    sm = stepmap or (lambda s: s)
    ck = None
    n_ops = 0
    pins = {}
    for i, (a, b) in enumerate(zip(beh, beh[1:]), 1):
        va = {k: v for k, v in _items(a['vis'])}
        vb = {k: v for k, v in _items(b['vis'])}
        live = {r['s'] for r in job.project() if r['ok']}
        for s in set(va) & set(vb):
            if va[s]['pin'] != vb[s]['pin'] and sm(s) in live and b['phase'] != 'saving':
                job.pin(sm(s), vb[s]['pin'])
                n_ops += 1
        if a['phase'] == 'idle' and b['phase'] == 'saving':
            # how does this save end in the behaviour?
            end = next((x['phase'] for x in beh[i:] if x['phase'] != 'saving'), 'idle')
            if ck is None:
                ck = [job.make(h, job.iterator(h, 0), **kw) for h in range(n)]
            at = rng.randrange(5, 45) if end == 'down' else None
            pinned_mid = None
            if rng.random() < 0.3 and len(live) > 0:
                pinned_mid = (rng.randrange(1, 20), rng.choice(sorted(live)))
            r, d = save_with_pin(job, sm(b['cur']), ckpt, n, at, ck, pinned_mid, rng)
            n_ops += 1
            if r == 'error':
                job.err = d
                break
            if r == 'crash':
                ck = None
        elif a['phase'] == 'down' and b['phase'] == 'idle':
            job.restore(**kw)
            n_ops += 1
        elif a['phase'] == 'idle' and b['phase'] == 'down':
            job.observe()
            job.emit('crash')
            ck = None
    job.restore(**kw)
    return job, n_ops


def save_with_pin(job, step, ckpt, n, at, ck, pinned_mid, rng):
    """A save during which an operator may pin a checkpoint that exists.

    The pin lands before the directory of the step is published, that is
    strictly before any clean-up of this save.
    """
    base = ckpt.random_policy(rng) if n > 1 else ckpt.priority_policy([0])
    st = {'done': pinned_mid is None}

    def policy(ready, s):
        if not st['done'] and s.count >= pinned_mid[0]:
            st['done'] = True
            cur = {r['s']: r for r in job.project()}
            if step not in cur and cur.get(pinned_mid[1], {}).get('ok'):
                job.pin(pinned_mid[1], True)
        return base(ready, s)
    return job.save(step, policy, at, ck=ck)


def _items(f):
    if isinstance(f, list):
        return [(i + 1, v) for i, v in enumerate(f)]
    return list(f.items())


def run(chk):
    from harness import ckpt, ckpt_trace, tlc
    from harness.tlc import cfg, Raw
    rng = random.Random(chk.seed)
    ckpt_trace.models(chk)
    ckpt.install()
    root = tempfile.mkdtemp()
    hist = []
    ops = 0
    for keep, keepds in ((0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (3, 2), (0, 1), (3, 1)):
        for ordered in (True, False):
            behs = tlc.simulate('CkptStore', cfg(
                spec='Spec', constants={'Steps': Raw('0..7'), 'Keep': keep, 'KeepDs': keepds,
                                        'Ordered': ordered}),
                num=chk.n(10, 80), depth=60, seed=chk.seed * 100 + keep * 10 + keepds)
            for i, b in enumerate(behs):
                n, sh = rng.choice(((1, 1), (1, 1), (2, 2), (2, 1)))
                sm = rng.choice((lambda s: s, lambda s: s * 5, lambda s: s * 9 + 1, lambda s: 10 ** s))
                job, k = replay(b, os.path.join(root, 'r'), keep, keepds,
                                random.Random(chk.seed * 1000 + i), n, sh, sm)
                ops += k
                hist.append({'ev': job.trace, 'keep': keep, 'keepds': keepds,
                             'mode': 'retention',
                             'id': 'keep=%d keepds=%d ordered=%s behaviour %d hosts=%d' % (
                                 keep, keepds, ordered, i, n),
                             'extra': repr(getattr(job, 'err', ''))[:400]})
        chk.log('keep=%d/%d: %d histories, %d operations' % (keep, keepds, len(hist), ops))
    # straight-line histories: many saves, with pins in all positions
    for keep in (1, 2, 3):
        for keepds in (0, 1, 2):
            for mask in range(chk.n(8, 16)):
                shutil.rmtree(os.path.join(root, 'r'), ignore_errors=True)
                job = ckpt.Job(root + '/r/model', 1, 1)
                kw = {'keep': keep, 'keep_dataset_checkpoints': keepds or None}
                c = [job.make(0, job.iterator(0, 0), **kw)]
                for s in range(7):
                    r, d = job.save(s * 3, ck=c)
                    ops += 1
                    if r != 'ok':
                        break
                    if s < 4 and mask >> s & 1 and any(x['s'] == s * 3 for x in job.project()):
                        job.pin(s * 3)
                    if s == 5 and mask & 1 and any(x['s'] == 0 for x in job.project()):
                        job.pin(0, False)
                job.restore(**kw)
                hist.append({'ev': job.trace, 'keep': keep, 'keepds': keepds,
                             'mode': 'retention',
                             'id': 'line keep=%d keepds=%d pins=%d' % (keep, keepds, mask)})
    ckpt_trace.validate(chk, hist, 'CkptTrace (retention)')
    chk.note(histories=len(hist), operations=ops)
    chk.assumptions.append('one job at a time writes a directory; operators may pin concurrently, '
                           'but not between the pin test and the removal of the same checkpoint')
    shutil.rmtree(root, ignore_errors=True)
