"""C03: best-metric retention."""
import os
import random
import shutil
import tempfile

DEVICES = 4
MAPS = [(-1.5, 0.0, 2.5), (0.0, 1.0, 2.0), (-3.0, -2.0, -1.0), (0.125, 10.0, 9000.0)]


def write_metric(root, run, tag, step, value, noise):
    import tensorflow as tf
    w = tf.summary.create_file_writer(os.path.join(root, run))
    with w.as_default():
        if noise:
            tf.summary.scalar('other', -1000.0 if noise == 1 else 1000.0, step=step)
        tf.summary.scalar(tag, value, step=step)
        if noise:
            tf.summary.scalar('zz' + tag, 5000.0, step=step)
    w.close()


class Legacy:
    def __init__(self, root, keep, period, maximise, knm, metric, n=1):
        from t5x import checkpoints
        from harness import ckpt
        self.root = root
        self.ck = checkpoints.SaveBestCheckpointer(
            ckpt.make_state(0), ckpt.FakePartitioner(0, 1), root, keep=keep or None,
            metric_name_to_monitor=metric, metric_mode='max' if maximise else 'min',
            keep_checkpoints_without_metrics=knm, force_keep_period=period or None)

    def save(self, step):
        from harness import ckpt
        self.ck.save(ckpt.make_state(step))

    def pin(self, step):
        from t5x import checkpoint_utils
        checkpoint_utils.pin_checkpoint(os.path.join(self.root, 'checkpoint_%d' % step))


def have(root):
    import re
    out = []
    for d in os.listdir(root):
        m = re.match(r'checkpoint_(\d+)$', d)
        if m and os.path.isdir(os.path.join(root, d)):
            out.append(int(m.group(1)))
    return sorted(out)


def replay(beh, root, keep, period, maximise, knm, rng, sid):
    """Drives the real checkpointer along a behaviour of CkptBest."""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    stride = rng.choice((1, 1, 5, 100))
    per = period * stride
    vals = rng.choice(MAPS)
    run, tag = rng.choice((('train', 'accuracy'), ('inference_eval', 'loss'),
                           ('inference_eval/glue', 'eval/acc')))
    ck = Legacy(root, keep, per, maximise, knm, run + '/' + tag)
    ev, metrics = [], {}
    dead = set()
    for a, b in zip(beh, beh[1:]):
        if b['todo'] != a['todo']:
            s = a['todo'] * stride
            ck.save(s)
            now = have(root)
            ev.append({'e': 'save', 's': s, 'have': now,
                       'm': [{'s': k, 'v': v} for k, v in metrics.items()]})
            continue
        now = have(root)
        ma, mb = seq(a['metric']), seq(b['metric'])
        for s in mb:
            if ma[s] != mb[s]:
                # real metric for the real step (which the code may have removed)
                if rng.random() < 0.3:      # an earlier report that is superseded
                    write_metric(root, run, tag, s * stride, vals[rng.randrange(3)], 0)
                write_metric(root, run, tag, s * stride, vals[mb[s]], rng.randrange(3))
                metrics[s * stride] = mb[s]
        for s in set(b['pins']) - set(a['pins']):
            if s * stride in now:
                ck.pin(s * stride)
                ev.append({'e': 'pin', 's': s * stride, 'have': [], 'm': []})
    return {'ev': ev, 'keep': keep, 'period': per, 'maximise': maximise, 'knm': knm, 'id': sid}


def seq(f):
    if isinstance(f, list):
        return {i + 1: v for i, v in enumerate(f)}
    return dict(f)


def run(chk):
    from harness import ckpt, tlc
    from harness.tlc import cfg, Raw
    rng = random.Random(chk.seed)
    invs = ['NewestKept', 'PinnedKept', 'ForcedKept', 'BestKept', 'TopSurvives',
            'UnmetricKept', 'Bounded']
    combos = [(1, 0, True, True), (1, 0, False, True), (2, 0, True, False), (1, 2, False, False),
              (2, 3, True, True), (2, 0, False, True), (3, 0, True, True), (0, 0, True, True),
              (1, 2, True, True), (3, 2, False, False)]
    root = tempfile.mkdtemp()
    hist = []
    for keep, per, mx, knm in combos:
        c = {'Steps': Raw('0..%d' % chk.n(3, 4)), 'Vals': Raw('{0,1,2}'), 'Keep': keep,
             'Period': per, 'Maximise': mx, 'KeepNoMetric': knm}
        st = tlc.check('CkptBest', cfg(spec='Spec', constants=c, invariants=invs))
        if st['unused_actions']:
            raise RuntimeError('vacuous: %s' % st)
        chk.spec('CkptBest keep=%d period=%d max=%s knm=%s' % (keep, per, mx, knm), st)
        c['Steps'] = Raw('0..9')
        behs = tlc.simulate('CkptBest', cfg(spec='Spec', constants=c),
                            num=chk.n(8, 60), depth=26, seed=chk.seed * 31 + keep)
        for i, b in enumerate(behs):
            hist.append(replay(b, os.path.join(root, 'm'), keep, per, mx, knm, rng,
                               'keep=%d period=%d max=%s knm=%s behaviour %d' % (
                                   keep, per, mx, knm, i)))
        # every evaluated order: metrics known for all (or all but one) step
        for i in range(chk.n(6, 40)):
            hist.append(line(os.path.join(root, 'm'), keep, per, mx, knm, rng, i))
    chk.log('%d histories recorded' % len(hist))
    reached, st = tlc.validate(
        'CkptBestTrace', cfg(spec='TSpec', constants={
            'Steps': Raw('{}'), 'Vals': Raw('{}'), 'Keep': 0, 'Period': 0, 'Maximise': True,
            'KeepNoMetric': True}, constraints=['Track'], postcondition='Report'), hist)
    chk.spec('CkptBestTrace', st)
    for h, r in zip(hist, reached):
        if r < len(h['ev']):
            e = h['ev'][r]
            prev = [x for x in h['ev'][:r] if x['e'] == 'save']
            chk.violation(h['id'], 'saving step %s left %s of %s although metrics were %s and '
                          'pinned %s (keep=%d period=%d %s)' % (
                              e['s'], e['have'], (prev[-1]['have'] if prev else []) + [e['s']],
                              {m['s']: m['v'] for m in e['m']},
                              [x['s'] for x in h['ev'][:r] if x['e'] == 'pin'],
                              h['keep'], h['period'], 'max' if h['maximise'] else 'min'), h)
    chk.validated(len(hist), hist[0])
    removed = sum(1 for h in hist for e, f in zip(h['ev'], h['ev'][1:])
                  if f['e'] == 'save' and e['e'] == 'save' and set(e['have']) - set(f['have']))
    chk.note(histories=len(hist), cleanups_that_removed=removed)
    shutil.rmtree(root, ignore_errors=True)


def line(root, keep, period, maximise, knm, rng, i):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    ck = Legacy(root, keep, period, maximise, knm, 'train/accuracy')
    ev, metrics = [], {}
    vals = rng.choice(MAPS)
    skip = rng.randrange(12)
    for s in range(1, 8):
        ck.save(s)
        ev.append({'e': 'save', 's': s, 'have': have(root),
                   'm': [{'s': k, 'v': v} for k, v in metrics.items()]})
        if s != skip:
            v = rng.randrange(3)
            write_metric(root, 'train', 'accuracy', s, vals[v], 0)
            metrics[s] = v
        if rng.random() < 0.15 and s in have(root):
            ck.pin(s)
            ev.append({'e': 'pin', 's': s, 'have': [], 'm': []})
    return {'ev': ev, 'keep': keep, 'period': period, 'maximise': maximise, 'knm': knm,
            'id': 'line keep=%d period=%d max=%s knm=%s %d' % (keep, period, maximise, knm, i)}
