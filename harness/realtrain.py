"""Real train() with real trainer, partitioner, data iterator and checkpoints."""
import functools
import hashlib
import types

import numpy as np

IDS, D = 24, 3


class Boom(Exception):
    pass


def dataset(batch, seed=3):
    import tensorflow as tf
    ds = tf.data.Dataset.range(IDS)
    ds = ds.shuffle(7, seed=seed, reshuffle_each_iteration=True).repeat()
    ds = ds.map(lambda i: {'id': tf.cast(i, tf.int32),
                           'x': tf.cast(tf.stack([i, i * i % 5, i % 3]), tf.float32)})
    return ds.batch(batch, drop_remainder=True)


def model(opt_kind, mutables, noise='noise', value=0):
    """noise, value: name and initial value of one of the parameters."""
    import jax
    import jax.numpy as jnp
    from flax.core import freeze
    from flax.linen import partitioning as fp
    from t5x import metrics as ml
    from harness import zoo

    def variables(rng, input_shapes, input_types=None):
        names = {'seen': ((IDS,), ('embed',)), noise: ((D,), ('kv',)), 'mark': ((D,), ('kv',)),
                 'w': ((D, 4), ('kv', 'mlp'))}
        p = {k: jnp.zeros(s, jnp.float32) for k, (s, _) in names.items()}
        p[noise] = p[noise] + value
        p['w'] = jax.random.normal(rng, (D, 4))
        v = {'params': p, 'params_axes': {k + '_axes': fp.AxisMetadata(names=a)
                                          for k, (_, a) in names.items()}}
        if mutables:
            v['stats'] = {'total': jnp.zeros((D,), jnp.float32)}
            v['stats_axes'] = {'total_axes': fp.AxisMetadata(names=('kv',))}
        return freeze(v)

    def loss_fn(params, batch, rng, flax_mutables=None):
        one = jax.nn.one_hot(batch['id'], IDS).sum(0)
        loss = jnp.sum(params['seen'] * one)
        loss += jnp.sum(params[noise] * jnp.round(jax.random.normal(rng, (D,)) * 16))
        loss += jnp.sum(jnp.tanh(batch['x'] @ params['w']))
        metrics = {'loss': ml.Sum.from_model_output(loss)}
        if flax_mutables is None:
            return loss, metrics
        mut = freeze({'stats': {'total': flax_mutables['stats']['total'] + batch['x'].sum(0)}})
        return loss, (metrics, mut)

    if opt_kind == 'multi':
        import flax.traverse_util as tu
        from t5x import adafactor, optimizers
        od = optimizers.MultiOptimizer([
            (tu.ModelParamTraversal(lambda p, _: 'seen' in p), adafactor.Adafactor(0.1)),
            (tu.ModelParamTraversal(lambda p, _: 'w' in p), adafactor.Adafactor(0.5, beta1=0.9))])
    elif opt_kind == 'frozen':
        from t5x import optimizers
        od = optimizers.sgd(0.0)
    else:
        od = zoo.opt(opt_kind)

    class Model:
        optimizer_def = od
        FEATURE_CONVERTER_CLS = None

        def get_initial_variables(self, rng, input_shapes, input_types=None):
            return variables(rng, input_shapes, input_types)

        def loss_fn(self, *a, **k):
            return loss_fn(*a, **k)

        def eval_fn(self, params, batch, *a):
            return loss_fn(params, batch, jax.random.PRNGKey(0))
    return Model()


def digest(state):
    """(step, hash of every leaf)."""
    import jax
    h = hashlib.sha1()
    from harness import zoo
    for k, v in sorted(zoo.leaves(state).items()):
        if k != 'state/step':
            h.update(k.encode() + str(v.dtype).encode() + str(v.shape).encode() + v.tobytes())
    del jax
    return int(np.asarray(state.step)), h.hexdigest()[:16]


class Job:
    """A job over one output directory; run() is one process life."""

    def __init__(self, c, root, reference):
        from harness import zoo
        self.c, self.root, self.ev = c, root, []
        self.part = zoo.partitioner(*c['mesh'], on_devices=True)
        self.model = model(c['opt'], c['mutables'],
                           c.get('noise', 'noise'), c.get('value', 0))
        self.ref = {b: i for i, b in reversed(list(enumerate(reference)))}

    def run(self, total, fail_at=-1, exc=Boom, stop_at=None, warm=None):
        """One life.  warm: checkpoint of another run to start from,
        as a path or a restore configuration."""
        from t5x import train as tl, trainer as trl, utils, checkpoints
        import jax.numpy as jnp
        c, ev, job = self.c, self.ev, self
        managers, trainers = [], []

        class It:
            def __init__(self, it, count):
                self.it, self.count = it, count

            def __next__(self):
                self.count[0] += 1
                if self.count[0] == fail_at:
                    ev.append(dict(e='die'))
                    raise exc('interrupted')
                b = next(self.it)
                ev.append(dict(e='batch', i=job.ref.get(tuple(np.asarray(b['id']).tolist()), -1)))
                return b

        count = [0]

        class Tr(trl.Trainer):
            def __init__(self, **kw):
                super().__init__(**kw)
                trainers.append(self)
                s, d = digest(self.train_state)
                ev.append(dict(e='begin', s=s, d=d))
                job.first = self.train_state.params

            def train(self, batch_iter, num_steps, start_step=None):
                r = super().train(It(batch_iter, count), num_steps, start_step)
                s, d = digest(self.train_state)
                ev.append(dict(e='at', s=s, d=d))
                return r

        class Stop(trl.BaseAction):
            def run(self, train_state, metrics_by_task):
                return stop_at is not None and int(train_state.step) >= stop_at

        real = utils.create_checkpoint_manager_and_restore

        def create(*a, **k):
            r = real(*a, **k)
            managers.append(r[1])
            return r
        old = (tl.utils.create_checkpoint_manager_and_restore, tl.utils.log_model_info,
               trl.metric_writers.create_default_writer)
        from clu import metric_writers
        tl.utils.create_checkpoint_manager_and_restore = create
        tl.utils.log_model_info = lambda *a, **k: None
        trl.metric_writers.create_default_writer = lambda *a, **k: metric_writers.MultiWriter([])
        save = utils.SaveCheckpointConfig(
            dtype='float32', period=c['period'] or None, checkpoint_steps=c['listed'],
            keep=c['keep'], save_dataset=c['save_dataset'],
            keep_dataset_checkpoints=c['keep_ds'])
        lr = (lambda step: jnp.asarray(step + 1, jnp.float32)) if c['opt'] == 'sgd' else (
            lambda step: 0.1 / jnp.sqrt(step + 1.0))
        try:
            end, st = tl.train(
                model=self.model, train_dataset_cfg=types.SimpleNamespace(batch_size=c['batch'], seed=None),
                train_eval_dataset_cfg=types.SimpleNamespace(batch_size=c['batch'], seed=None)
                if c['evalp'] else None, infer_eval_dataset_cfg=None,
                checkpoint_cfg=utils.CheckpointConfig(save=save, restore=warm if not isinstance(warm, str) else
                    utils.RestoreCheckpointConfig(path=warm, mode='specific', dtype='float32')), partitioner=self.part,
                trainer_cls=functools.partial(Tr, learning_rate_fn=lr,
                                              num_microbatches=c['micro']),
                model_dir=self.root, total_steps=total, eval_steps=1, eval_period=c['evalp'],
                stats_period=c['stats'] or None, random_seed=c['seed'],
                summarize_config_fn=lambda *a: None,
                get_dataset_fn=lambda *a, **k: dataset(c['batch']),
                train_eval_get_dataset_fn=lambda *a, **k: {'e': dataset(c['batch'], 9).take(2)},
                concurrent_metrics=False, actions={'TRAIN': [Stop()]}, use_orbax=c['orbax'],
                verify_matching_vocabs_fn=None)
            s, d = digest(st)
            ev.append(dict(e='end', s=s, d=d, r=int(end)))
        except (Boom, trl.PreemptionError):
            pass
        finally:
            (tl.utils.create_checkpoint_manager_and_restore, tl.utils.log_model_info,
             trl.metric_writers.create_default_writer) = old
            for m in managers:
                # A save in flight counts as finished.
                m.wait_until_finished()
                m.close()
            for t in trainers:
                t.close()
        have = [int(s) for s in checkpoints.all_steps(self.root)]
        ev.append(dict(e='off', have=have))
