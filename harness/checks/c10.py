"""C10: metrics are aggregated exactly and written in order.

Metrics of generated rows are computed in arbitrary pieces, merged in arbitrary
groupings and summarised by the real metrics manager; TLC judges every reported
value against spec/MetricValue.tla.  The manager's background writing is driven
with a slow, failing writer and several clients, and every history validated
against spec/MetricsQueueTrace.tla.
"""
import random
import threading
import time as real_time
from fractions import Fraction

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 2


class Clock:
    """Stands in for the time module of the code under test."""

    def __init__(self):
        self.now = 0.0

    def time(self):
        return self.now

    def __getattr__(self, k):
        return getattr(real_time, k)


class Leaf:
    """Something to wait for; the time is `t` when it is ready."""

    def __init__(self, clock, t, wait=lambda: None):
        self.clock, self.t, self.wait = clock, t, wait

    def block_until_ready(self):
        self.wait()
        self.clock.now = self.t
        return self


def tick(leaf):
    import flax
    import jax.numpy as jnp
    from clu import metrics as clu_metrics

    @flax.struct.dataclass
    class Tick(clu_metrics.Metric):
        leaf: object = None

        def compute(self):
            return jnp.zeros(())
    return Tick(leaf)


class Writer:
    def __init__(self, log, wait=lambda: None, fail=lambda step: False):
        self.log, self.wait, self.fail = log, wait, fail

    def write_scalars(self, step, scalars):
        self.log('wbegin', step=int(step), vals=scalars)
        self.wait()
        bad = self.fail(int(step))
        self.log('wend', ok=not bad)
        if bad:
            raise OSError('disk full')

    def flush(self):
        self.log('wflush')

    def close(self):
        self.log('wclose')

    def __getattr__(self, k):
        if k.startswith('write_'):
            return lambda *a, **b: None
        raise AttributeError(k)


def frac(v):
    import numpy as np
    v = float(np.asarray(v).reshape(-1)[0]) if np.asarray(v).size == 1 else float('nan')
    if v != v or v in (float('inf'), -float('inf')):
        return [0, 0]
    f = Fraction(v).limit_denominator(3000)
    if abs(float(f) - v) > 2e-6 * max(1, abs(v)) or abs(f.numerator) > 10**5:
        return [99991, 1]
    return [f.numerator, f.denominator]


def patched():
    from t5x import trainer as trl
    clock = Clock()
    trl.time = clock
    return trl, clock


def values(item):
    import clu.metrics as cm
    import jax
    import jax.numpy as jnp
    import numpy as np
    from t5x import metrics as ml, models
    seed, num = item
    r = random.Random(seed)
    trl, clock = patched()
    out = []
    V = 4

    def partial(rows, zl, packed):
        logits = np.zeros((len(rows), len(rows[0]['toks']), V), np.float32)
        targets = np.zeros(logits.shape[:2], np.int32)
        for i, row in enumerate(rows):
            for j, k in enumerate(row['toks']):
                targets[i, j] = r.randrange(V)
                logits[i, j, targets[i, j] if k['hit'] else (targets[i, j] + 1) % V] = 1
        mask = np.asarray([[k['mask'] for k in row['toks']] for row in rows])
        tot = lambda f: jnp.asarray(sum(k[f] for row in rows for k in row['toks']), jnp.float32)
        seg = None
        if packed:
            seg = {'inputs': np.asarray([row['inputs'] for row in rows], np.int32).reshape(len(rows), -1),
                   'targets': np.asarray([row['targets'] for row in rows], np.int32), 'other': None}
        m = models.compute_base_metrics(jnp.asarray(logits), jnp.asarray(targets), jnp.asarray(mask),
                                        tot('loss'), tot('z') if zl else None, seg)
        x = jnp.asarray([row['x'] for row in rows], jnp.float32)
        m.update({'x/sum': ml.Sum.from_model_output(x if r.random() < .5 else x.sum()),
                  'x/per_step': ml.AveragePerStep.from_model_output(x),
                  'x/mean': cm.Average.from_model_output(x),
                  'x/rate': ml.TimeRate.from_model_output(numerator=x.sum()),
                  'x/last': cm.LastValue.from_model_output(x[-1:])})
        return m

    def merge(parts):
        if len(parts) == 1:
            return parts[0]
        k = r.randint(1, len(parts) - 1) if r.random() < .6 else len(parts) - 1
        return trl.merge_metrics(merge(parts[:k]), merge(parts[k:]))

    def ids(n):
        q, cur = [], r.choice([1, 1, 2, 5])
        for _ in range(n):
            q.append(cur)
            if r.random() < .4:
                cur += r.randint(1, 2)
        pad = r.choice([0, 0, 1, 2, n])
        return q[:max(0, n - pad)] + [0] * min(n, pad)
    for k in range(num):
        L, LI = r.randint(1, 3), r.choice([0, 1, 3, 4])
        n = r.randint(1, 9)
        zl, packed = r.random() < .5, r.random() < .6
        rows = [dict(x=r.randint(-20, 40), inputs=ids(LI), targets=ids(L), toks=[
            dict(hit=r.randint(0, 1), mask=r.randint(0, 1), loss=r.randint(0, 30), z=r.randint(0, 5))
            for _ in range(L)]) for _ in range(n)]
        parts, i = [], 0
        while i < n:
            c = r.randint(1, 3)
            parts.append(partial(rows[i:i + c], zl, packed))
            i += c
        steps, dur = r.choice([1, 2, 5]), r.choice([1, 2, 3, 8])
        log = []
        trl.metric_writers.create_default_writer = lambda *a, **b: Writer(lambda e, **kw: log.append((e, kw)))
        mm = trl.MetricsManager('m', None)
        asked = r.randint(0, 1000)
        mm.start_duration_timer(block_on=[Leaf(clock, 5.0)])
        m = dict(merge(parts))
        m['x/tick'] = tick(Leaf(clock, 5.0 + dur))
        res = mm.write_metrics_summary(m, r.choice([asked, jnp.asarray(asked)]), steps).result()
        mm.close()
        w = [kw for e, kw in log if e == 'wbegin']
        get = lambda d: {a: frac(getattr(b, 'value', b)) for a, b in d.items() if a != 'x/tick'}
        out.append(dict(rows=rows, steps=steps, duration=dur, zloss=zl, packed=packed,
                        devices=jax.device_count(), vals=get(res), writes=len(w), asked=asked,
                        step=w[0]['step'] if w else -1, written=get(w[0]['vals']) if w else {'none': [0, 0]},
                        id='seed %d case %d: %d rows in %d pieces' % (seed, k, n, len(parts))))
    return out


def queues(item):
    import jax.numpy as jnp
    from t5x import metrics as ml
    seed, num = item
    r = random.Random(seed)
    trl, clock = patched()
    out = []
    for k in range(num):
        ev, mu = [], threading.Lock()
        names = ['s', 'dur', 'rate', 'sps']

        def whole(v):
            n, d = frac(getattr(v, 'value', v))
            return n if d == 1 else -999

        def log(e, **kw):
            if 'vals' in kw and isinstance(kw['vals'], dict):
                v = kw['vals']
                kw['vals'] = [whole(v[x]) for x in names if x in v] + (
                    [whole(v[x]) for x in sorted(v) if x not in names and x != 'tick'])
            with mu:
                ev.append(dict(e=e, **kw))

        slow = r.choice([0, 0.001, 0.004])

        def wait(rr=random.Random(r.random()), slow=slow):
            d = rr.random() * slow * rr.choice([0, 1, 1, 3])
            if d:
                real_time.sleep(d)
        failing = {100 + r.randint(1, 8)} if r.random() < .3 else set()
        w = Writer(log, wait, lambda step: step in failing)
        trl.metric_writers.create_default_writer = lambda *a, **b: w
        mm = trl.MetricsManager('m', None)
        base = r.randint(0, 50)
        t = [0]
        nscal, ready = [0], threading.Barrier(3)
        smu = threading.Lock()

        def scal(name, step, v):
            with smu:
                nscal[0] += 1
                i = nscal[0]
                log('scal', i=i, step=step, vals=[v])
            if v % 2:
                mm.write_scalar(name, v, jnp.asarray(step) if v % 4 == 1 else step)
            else:
                mm.write_scalars(step, {name: v})
            log('scalret', i=i)

        def client(c, rr):
            ready.wait()
            for _ in range(rr.randint(0, 4)):
                scal('c%d' % c, rr.randint(0, 9), rr.randint(0, 99))
                real_time.sleep(rr.random() * 0.004)
        cl = [threading.Thread(target=client, args=(c, random.Random(r.random()))) for c in (1, 2)]
        for c in cl:
            c.start()
        ready.wait()
        futs = {}
        nsum = 0

        def waited(fn, close):
            log('wait')
            raised = False
            try:
                fn()
            except Exception:
                raised = True
            log('waited', close=close, raised=raised)
        for _ in range(r.randint(2, 9)):
            op = r.choice(['enq'] * 5 + ['scal', 'flush', 'result'])
            if op == 'enq':
                nsum += 1
                d, q = r.randint(1, 6), r.randint(0, 9)
                mult = r.randint(1, 3)
                t0 = t[0] + r.randint(1, 3)
                t[0] = t0 + d
                v = r.randint(-50, 50)
                mm.start_duration_timer(block_on=(Leaf(clock, t0, wait),))
                m = {'s': ml.Sum(jnp.asarray(v)), 'dur': ml.Time(),
                     'rate': ml.TimeRate.from_model_output(numerator=jnp.asarray(q * d)),
                     'sps': ml.StepsPerTime.from_model_output(), 'tick': tick(Leaf(clock, t0 + d, wait))}
                step = 100 + nsum
                log('enq', i=nsum, step=step, vals=[v, d, q, mult])
                raised = False
                try:
                    futs[nsum] = mm.write_metrics_summary(m, step, mult * d)
                except Exception:
                    raised = True
                log('enqret', raised=raised)
            elif op == 'scal':
                scal('main', r.randint(0, 9), r.randint(0, 99))
            elif op == 'flush':
                waited(mm.flush, False)
            elif futs:
                i = r.choice(list(futs))
                try:
                    log('result', i=i, vals=futs[i].result())
                except OSError:
                    pass
        for c in cl:
            c.join()
        waited(mm.close, True)
        out.append(dict(ev=ev, id='seed %d history %d (delays up to %s ms)' % (seed, k, 1000 * slow)))
        del base
    return out


def trainers(item):
    """Summaries of real training and evaluation calls."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from clu import metrics as cm
    from harness import zoo
    from harness.checks.c09 import model
    from t5x import train_state as tsl, trainer as trl
    seed, num = item
    r = random.Random(seed)
    out = []
    for k in range(num):
        mo = model(False)
        factor = r.randint(1, 4)
        devices, micro = r.choice([1, 2]), r.choice([None, 2])
        part = zoo.partitioner(devices, 1, on_devices=True)
        orig = mo.loss_fn

        def loss_fn(params, batch, rng, orig=orig):
            loss, m = orig(params, batch, rng)
            m['average'] = cm.Average(total=factor * m['weight'].total, count=1)
            return loss, m
        mo.loss_fn = loss_fn
        mo.eval_fn = lambda params, batch, loss_fn=loss_fn: loss_fn(params, batch, None)
        logs = {}

        def writer(d, collection=None, **kw):
            logs[collection] = []
            return Writer(lambda e, c=collection, **q: logs[c].append((e, q)))
        trl.metric_writers.create_default_writer = writer
        st = tsl.FlaxOptimTrainState.create(mo.optimizer_def, mo.variables([0] * 8)).replace_step(
            jnp.asarray(r.choice([0, 5]), jnp.int32))
        axes = part.get_mesh_axes(st)
        t = trl.Trainer(model=mo, train_state=st, partitioner=part, eval_names=['e1', 'e2'], summary_dir=None,
                        train_state_axes=axes, rng=jax.random.PRNGKey(0), learning_rate_fn=lambda s: s + 1.0,
                        num_microbatches=micro)

        def batch(n):
            b = [dict(id=r.randrange(8), w=r.choice([0, 1, 2])) for _ in range(n)]
            return b, {'x': np.zeros((n, 3, 2, 4), np.float32),
                       'id': np.asarray([e['id'] for e in b], np.int32),
                       'w': np.asarray([e['w'] for e in b], np.int32)}

        def ints(v):
            n, d = frac(v.value if hasattr(v, 'value') else v)
            return n if d == 1 else 10**6

        def record(bs, n, res, name, step):
            t.train_metrics_manager.flush()
            w = [q['step'] for e, q in logs[name] if e == 'wbegin' and 'weight' in q['vals']]
            logs[name].clear()
            out.append(dict(batches=[b for b, _ in bs], step=step, writes=w, factor=factor,
                            weight=ints(res['weight']), idsum=ints(res['idsum']),
                            lr=ints(res['learning_rate/current']) if name == 'train' else step,
                            average=ints(Times(res['average'], n)),
                            id='seed %d trainer %d: %s, %d batches' % (seed, k, name, n)))

        class Times:
            def __init__(self, v, n):
                self.value = np.asarray(v.value) * n
        with part.mesh:
            if r.random() < .5:
                t.compile_eval({n: batch(4 * devices)[1] for n in ('e1', 'e2')})
                for v in logs.values():
                    v.clear()
            for _ in range(3):
                n = r.randint(1, 4)
                s0 = int(t.train_state.step)
                bs = [batch(4 * devices) for _ in range(n)]
                res = t.train(iter([b for _, b in bs]), n, r.choice([None, s0])).result()
                mb = micro or 1
                record(bs, n * mb, res, 'train', s0 + n)
                ev = {e: [batch(4 * devices) for _ in range(r.randint(1, 3))]
                      for e in r.choice([['e1'], ['e1', 'e2'], ['e2', 'e1']])}
                res = t.eval({e: iter([b for _, b in bs]) for e, bs in ev.items()})
                for e, bs in ev.items():
                    record(bs, len(bs), res[e], 'training_eval/' + e, s0 + n)
        t.close()
    return out


def run(chk):
    st = tlc.check('MetricAgg', cfg(spec='Spec', constants=dict(Vals=Raw('{-1, 0, 2}'), MaxLen=chk.n(4, 6)),
                                    invariants=['Exact', 'Conserved']))
    chk.spec('MetricAgg', st)
    st = tlc.check('MetricsQueue', cfg(
        spec='Spec', constants=dict(MaxSums=chk.n(2, 4), Clients=Raw('{"a", "b"}'), MaxScalars=1),
        invariants=['InOrder', 'OnceEach', 'Settled'], properties=['FinalOut', 'Ends']))
    chk.spec('MetricsQueue', st)
    s = chk.seed * 1000
    n = chk.n(1, 8)
    cases = [c for h in pool.pmap(chk, 'harness.checks.c10', 'values',
                                  [(s + k, 9 * n) for k in range(8)], procs=8, devices=2) for c in h or []]
    bad, cnt = tlc.judge('MetricValue', cases)
    for i in bad:
        c = cases[i]
        chk.violation(c['id'], '%d steps in %d s of rows %s reported as %s, written %s times (%s)' % (
            c['steps'], c['duration'], c['rows'], c['vals'], c['writes'], c['written']), c)
    tr = [c for h in pool.pmap(chk, 'harness.checks.c10', 'trainers',
                               [(s + k, 2 * n) for k in range(4)], procs=4, devices=2) for c in h or []]
    bad, cnt2 = tlc.judge('MetricValue', tr, op='TrainerOk')
    for i in bad:
        chk.violation(tr[i]['id'], '%s' % tr[i], tr[i])
    hist = [c for h in pool.pmap(chk, 'harness.checks.c10', 'queues',
                                 [(s + k, 25 * n) for k in range(8)], procs=8, devices=1) for c in h or []]
    reached, st = tlc.validate('MetricsQueueTrace', cfg(
        spec='TSpec', constraints=['Track'], postcondition='Report'), hist)
    chk.spec('MetricsQueueTrace', st)
    for h, k in zip(hist, reached):
        if k < len(h['ev']):
            chk.violation(h['id'], 'event %d: %s after %s' % (k + 1, h['ev'][k], h['ev'][:k]), h)
    chk.validated(len(hist) + cnt + cnt2, hist[0] if hist else None)
    chk.note(values=cnt, trainer_calls=cnt2, queue_histories=len(hist))
