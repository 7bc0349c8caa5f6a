"""C01: atomic, complete, crash-safe saves on every host schedule."""
import os
import random
import shutil
import tempfile

DEVICES = 4


def scenario(rng, root, nhosts, shards, keep, keepds, policy, crash, sid, steps=(1, 2, 3)):
    """Saves steps; the save at crash[0] is aborted at boundary crash[1]."""
    from harness import ckpt
    shutil.rmtree(root, ignore_errors=True)
    job = ckpt.Job(root + '/model', nhosts, shards, rng=random.Random(sid))
    job.rets = True
    kw = {'keep': keep or None, 'keep_dataset_checkpoints': keepds or None}
    extra = []
    reached_crash = False
    for s in steps:
        at = crash[1] if crash and crash[0] == s else None
        r, d = job.save(s, policy(), at, **kw)
        extra.append((s, r, repr(d)[:300] if r == 'error' else d))
        if r == 'error':
            break
        if r == 'crash':
            reached_crash = True
            g = job.restore(**kw)
            # the restarted job continues from what it got
            again = [x for x in steps if x > (g if isinstance(g, int) else -1)]
            for x in again[:2]:
                r2, d2 = job.save(x, policy(), None, **kw)
                extra.append((x, r2, repr(d2)[:300] if r2 == 'error' else d2))
                if r2 != 'ok':
                    break
            break
    else:
        reached_crash = crash is None
    job.restore(**kw)
    h = {'ev': job.trace, 'keep': keep, 'keepds': keepds, 'mode': 'atomic', 'id': sid,
         'extra': extra}
    return h, job, reached_crash


def run(chk):
    from harness import ckpt, ckpt_trace
    rng = random.Random(chk.seed)
    ckpt_trace.save_models(chk)
    ckpt_trace.models(chk)
    chk.log('models done')
    ckpt.install()
    root = tempfile.mkdtemp()
    hist = []
    cache = {}
    crash_points = 0

    def go(sid, *a, **k):
        nonlocal crash_points
        h, job, hit = scenario(rng, os.path.join(root, 'r'), *a, sid=sid, **k)
        hist.append(h)
        return hit

    # every crash point of a single-host job, with and without pruning
    for keep, keepds in ((0, 0), (1, 0), (2, 1)):
        for step in ((2, 3) if keep else (0, 2)):
            k = 0
            while k < 200:
                steps = (0, 1) if step == 0 else (1, 2, 3)
                hit = go('1host keep=%d/%d crash@%d.%d' % (keep, keepds, step, k),
                         1, 1, keep, keepds, lambda: ckpt.priority_policy([0]), (step, k),
                         steps=steps)
                if not hit:
                    break
                crash_points += 1
                k += 1
    chk.log('single host: %d histories' % len(hist))
    # several hosts: TLC schedules, starving and random schedules, crash points
    for n, shards in ((2, 2), (3, 3), (2, 1), (4, 2)):
        for i, picks in enumerate(ckpt_trace.schedules(chk, min(n, 3), chk.n(6, 60))):
            go('%dhosts/%d tlc-schedule %d' % (n, shards, i), n, shards, 1, 0,
               lambda p=picks: ckpt.script_policy([x for y in p for x in [y] * 3]), None)
        orders = [list(range(n)), list(range(n))[::-1]]
        if n > 2:
            orders.append(list(range(1, n)) + [0])
            orders.append([1, 0] + list(range(2, n)))
        for o in orders:
            go('%dhosts/%d starve %s' % (n, shards, o), n, shards, 2, 1,
               lambda o=o: ckpt.priority_policy(o), None)
            go('%dhosts/%d again %s' % (n, shards, o), n, shards, 2, 1,
               lambda o=o: ckpt.priority_policy(o), None, steps=(1, 2, 2, 3))
            pts = range(0, 120) if chk.thorough else range(rng.randrange(4), 120, 5)
            for k in pts:
                hit = go('%dhosts/%d starve %s crash@2.%d' % (n, shards, o, k), n, shards, 1, 0,
                         lambda o=o: ckpt.priority_policy(o), (2, k))
                if not hit:
                    break
                crash_points += 1
        for i in range(chk.n(12, 300)):
            seed = rng.randrange(1 << 30)
            r2 = random.Random(seed)
            pol = ((lambda: ckpt.random_policy(r2)) if i % 2 else
                   (lambda: ckpt.pct_policy(r2, n)))
            cr = None if i % 3 == 0 else (rng.choice((2, 3)), rng.randrange(60))
            go('%dhosts/%d random %d crash=%s' % (n, shards, seed, cr), n, shards,
               rng.choice((0, 1, 2)), rng.choice((0, 1)), pol, cr)
    chk.log('%d histories, %d crash points' % (len(hist), crash_points))
    # the concurrency limit must not stop a save from finishing
    big(chk, os.path.join(root, 'big'))
    ckpt_trace.validate(chk, hist, 'CkptTrace')
    chk.note(crash_points=crash_points, histories=len(hist),
             hosts=[1, 2, 3, 4])
    chk.assumptions += [
        'hosts are threads of one process; jax.process_index, the cross-host barrier and '
        'broadcast, and the multi-host array writer are stand-ins with JAX\'s contract',
        'rename of a directory is atomic; a crash aborts every host between two file operations '
        '(file writes are cut in two)']
    shutil.rmtree(root, ignore_errors=True)


def big(chk, root):
    """Saves whose arrays reach the limit on bytes in flight must still finish."""
    from harness import ckpt
    os.makedirs(root, exist_ok=True)
    nb = 4 * 2 * 4      # bytes of one (4, 2) float32 array
    for lim in (nb - 4, nb, nb + 4, 1, 10 ** 9):
        job = ckpt.Job(os.path.join(root, 'm%d' % lim))
        c = job.make(0, job.iterator(0, 1))
        sched = ckpt.Sched(1, ckpt.priority_policy([0]))

        def host(h, c=c, lim=lim):
            c.save(ckpt.make_state(1), concurrent_gb=lim / 10 ** 9)
        import threading
        done = []
        th = threading.Thread(target=lambda: done.append(sched.run(host)), daemon=True)
        th.start()
        th.join(20)
        if not done or sched.error:
            chk.violation('limit %d' % lim,
                          'a save whose array has %d bytes does not finish with a limit of %d '
                          'bytes in flight: %s' % (nb, lim, sched.error))
            continue
        job.observe()
        if [r['s'] for r in job.last if r['ok'] and r['ds']] != [1]:
            chk.violation('limit %d' % lim, 'bad checkpoint: %s' % job.last)
