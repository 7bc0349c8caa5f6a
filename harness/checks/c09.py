"""C09: micro-batched steps equal full-batch steps, one update each.

The real trainer runs steps of a model whose gradients, metrics, mutable
variables and optimizer state reveal (in integers) which examples were counted
how often, how many updates were applied and with which rate; TLC validates
every run against spec/MicroBatch.tla.
"""
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 4
IDS, SLOTS = 8, 24


def model(mutables):
    import jax
    import jax.numpy as jnp
    from flax import struct
    from flax.core import freeze
    from flax.linen import partitioning as fp
    from t5x import metrics as ml, optimizers

    @struct.dataclass
    class HP:
        learning_rate: float = 0.0

    class Counting(optimizers.OptimizerDef):
        """Gradient descent that records the rates it was given."""

        def __init__(self):
            super().__init__(HP())

        def init_state(self, params):
            return optimizers.OptimizerState(
                jnp.zeros((), jnp.int32),
                jax.tree.map(lambda p: jnp.zeros((2, SLOTS), jnp.float32), params))

        def apply_gradient(self, hyper_params, params, state, grads):
            lr = hyper_params.learning_rate
            new = jax.tree.map(lambda p, g: p - lr * g, params, grads)
            ps = jax.tree.map(lambda q: q.at[0, state.step].add(lr).at[1, state.step].add(1),
                              state.param_states)
            return new, optimizers.OptimizerState(state.step + 1, ps)

        def derive_logical_axes(self, optimizer, axes):
            return optimizer.replace(target=axes, state=optimizers.OptimizerState(
                None, jax.tree.map(lambda x: None, optimizer.state.param_states)))

    class Model:
        optimizer_def = Counting()

        def variables(self, start):
            p = {'seen': jnp.asarray(start, jnp.float32), 'deep': {'w': jnp.zeros((2, 4))}}
            v = {'params': p, 'params_axes': {
                'seen_axes': fp.AxisMetadata(names=('mlp',)),
                'deep': {'w_axes': fp.AxisMetadata(names=('embed', 'kv'))}}}
            if mutables:
                v['stats'] = {'n': jnp.zeros((), jnp.int32), 'total': jnp.zeros((), jnp.float32),
                              'draw': jnp.zeros((4 * SLOTS,), jnp.int32)}
                v['stats_axes'] = {k + '_axes': fp.AxisMetadata(names=a)
                                   for k, a in (('n', ()), ('total', ()), ('draw', ('embed',)))}
            return freeze(v)

        def loss_fn(self, params, batch, rng, flax_mutables=None):
            w = batch['w'].astype(jnp.float32)
            loss = jnp.sum(w * params['seen'][batch['id']]) + jnp.sum(params['deep']['w'] * batch['x'].sum((0, 1)))
            total = jnp.sum(w * batch['id'])
            m = {'weight': ml.Sum.from_model_output(w.sum()), 'idsum': ml.Sum.from_model_output(total)}
            if flax_mutables is None:
                return loss, m
            s = flax_mutables['stats']
            return loss, (m, freeze({'stats': {
                'n': s['n'] + 1, 'total': s['total'] + total,
                'draw': s['draw'].at[s['n']].set(jax.random.randint(rng, (), 1, 2**30))}}))
    return Model()


def runs(item):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from harness import zoo
    from t5x import train_state as tsl, trainer as trl
    from clu import metric_writers
    trl.metric_writers.create_default_writer = lambda *a, **k: metric_writers.MultiWriter([])
    seed, num = item
    r = random.Random(seed)
    out = []
    for k in range(num):
        mutables = r.random() < 0.6
        data, mdl = r.choice([(1, 1), (1, 1), (2, 1), (2, 2), (4, 1)])
        part = zoo.partitioner(data, mdl, on_devices=True)
        mo = model(mutables)
        micro = r.choice([None, 0, 1, 2, 2, 3, 4])
        m = micro if micro and micro > 1 else 1
        size = m * data * r.choice([1, 1, 2])
        rate = [r.randint(0, 5) for _ in range(SLOTS)]
        start = [r.randint(-9, 9) for _ in range(IDS)]
        step = r.choice([0, 0, 1, 7])
        st = tsl.FlaxOptimTrainState.create(mo.optimizer_def, mo.variables(start)).replace_step(
            jnp.asarray(step, jnp.int32))
        axes = part.get_mesh_axes(st)
        table = jnp.asarray(rate, jnp.float32)
        t = trl.Trainer(model=mo, train_state=st, partitioner=part, eval_names=[], summary_dir=None,
                        train_state_axes=axes, rng=jax.random.PRNGKey(r.randint(0, 9)),
                        learning_rate_fn=lambda s: table[s], num_microbatches=micro)

        def batch(n):
            b = [dict(id=r.randrange(IDS), w=r.choice([0, 1, 1, 2, 257])) for _ in range(n)]
            return b, {'x': np.zeros((n, 3, 2, 4), np.float32),
                       'id': np.asarray([e['id'] for e in b], np.int32),
                       'w': np.asarray([e['w'] for e in b], np.int32)}

        def ints(x):
            a = np.asarray(x)
            b = np.rint(a).astype(int)
            return [int(v) if w == v else 10**6 + int(v) for v, w in zip(b.ravel(), a.ravel())]

        def now():
            s = t.train_state
            return dict(param=ints(s.params['seen']), step=int(s.step))
        ev = []
        done = 0
        if r.random() < 0.4:
            t.compile_train(batch(size)[1])
        with part.mesh:
            for _ in range(r.randint(1, 4)):
                n = r.randint(1, 3)
                bs = [batch(size) for _ in range(n)]
                fut = t.train(iter([b for _, b in bs]), n, r.choice([None, t.train_state.step]))
                res = {k: v.value if hasattr(v, 'value') else v for k, v in fut.result().items()}
                ps = np.asarray(t.train_state.param_states['seen'])
                e = dict(e='train', batches=[b for b, _ in bs], m=m, mutables=mutables, **now(),
                         rates=ints(ps[0]), applied=ints(ps[1]), weight=ints([res['weight']])[0],
                         idsum=ints([res['idsum']])[0], lr=ints([res['learning_rate/current']])[0])
                if mutables:
                    s = t.train_state.flax_mutables['stats']
                    c = int(s['n'])
                    e.update(draws=ints(s['draw'])[done:max(c, done)], mut=ints(s['total'])[0])
                    done = c
                ev.append(e)
            if m > 1 and r.random() < 0.5:
                n = m * data + r.randrange(1, m)
                t2 = trl.Trainer(model=mo, train_state=t.train_state, partitioner=part, eval_names=[],
                                 summary_dir=None, train_state_axes=axes, rng=jax.random.PRNGKey(0),
                                 learning_rate_fn=lambda s: table[s], num_microbatches=micro)
                b = batch(n)[1]
                try:
                    # Outside of the partitioner, whose own checks would also refuse.
                    trl.train_with_lr(t.train_state, b, 1.0, jax.random.PRNGKey(0), mo, micro)
                    now2 = dict(param=[10**6] * IDS, step=0)
                except (AssertionError, ValueError):
                    now2 = now()
                ev.append(dict(e='refused', n=n, m=m, **now2))
                t2.close()
        t.close()
        out.append(dict(ev=ev, rate=rate, start=start, step=step,
                        id='seed %d run %d: mesh %s, %s micro-batches of %s, mutables %s' % (
                            seed, k, (data, mdl), micro, size // m, mutables)))
    return out


def run(chk):
    c = cfg(spec='Spec', constants=dict(Ids=Raw('{0, 1}'), Rate='<- MCRate', MaxLen=chk.n(3, 4),
                                        MaxSteps=2),
            invariants=['FullBatch', 'OneUpdate', 'Descent'])
    c.defs.append('MCRate(s) == s + 2')
    st = tlc.check('MicroBatch', c)
    chk.spec('MicroBatch', st)
    hist = []
    for rs in pool.pmap(chk, 'harness.checks.c09', 'runs',
                        [(chk.seed * 1000 + k, chk.n(5, 60)) for k in range(8)], procs=8, devices=4):
        hist += rs or []
    reached, st = tlc.validate('MicroBatchTrace', cfg(
        spec='TSpec', constants=dict(Ids=Raw('{%s}' % ', '.join(map(str, range(IDS)))), Rate='<- RateOf',
                                     MaxLen=1, MaxSteps=1),
        constraints=['Track'], postcondition='Report'), hist)
    chk.spec('MicroBatchTrace', st)
    for h, n in zip(hist, reached):
        if n < len(h['ev']):
            chk.violation(h['id'], 'rates %s, start %s, step %s: call %d: %s' % (
                h['rate'], h['start'], h['step'], n + 1, h['ev'][n]), h)
    chk.validated(len(hist), hist[0] if hist else None)
    chk.note(runs=[h['id'] for h in hist[:30]])
