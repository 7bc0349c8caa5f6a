"""Runs the real train() with recorded stand-ins for its collaborators.

The loop, BaseTrainer.train and BaseTrainer.eval are the real ones; the model
step, the checkpoint manager, the evaluator and the summary writer record
events.  `disk` (the set of saved steps) outlives a run.
"""
import gc
import types

import numpy as np

EV = []


class Boom(Exception):
    pass


class Loop(Exception):
    """The loop does not advance."""


class State:
    flax_mutables = None

    def __init__(self, step):
        self.step = np.int64(step)


class Batches:
    """Endless batches; raises at a chosen one."""

    def __init__(self, fail_at, exc):
        self.n, self.fail_at, self.exc = 0, fail_at, exc

    def __next__(self):
        self.n += 1
        if self.n == self.fail_at:
            EV.append(dict(e='preempt' if self.exc is not Boom else 'crash'))
            raise self.exc('interrupted')
        return {'x': np.zeros((1, 1), np.float32)}


_DS = []


def eval_ds():
    if not _DS:
        import tensorflow as tf
        _DS.append(tf.data.Dataset.from_tensors({'x': np.zeros((1, 1), np.float32)}))
    return _DS[0]


def make_iter(fail_at, exc):
    import clu.data
    b = Batches(fail_at, exc)

    class It(clu.data.dataset_iterator.DatasetIterator):
        element_spec = {'x': clu.data.dataset_iterator.ArraySpec(np.float32, (1, 1))}

        def __next__(self):
            return next(b)

        def reset(self):
            pass
    return It()


class Writer:
    """In-memory summary writer."""

    def __init__(self, log):
        self.log = log

    def write_scalars(self, step, scalars):
        if any(k.startswith('loss') for k in scalars):
            self.log.append(int(step))

    def __getattr__(self, name):
        return lambda *a, **k: None


class Manager:
    def __init__(self, disk, orbax, state):
        self.disk, self.orbax, self.closed = disk, orbax, False
        self.state = state

    def all_steps(self):
        return sorted(self.disk)

    def latest_step(self):
        return max(self.disk) if self.disk else None

    def save(self, state, fns=()):
        s = int(state.step)
        if self.orbax and s in self.disk:
            raise RuntimeError('StepAlreadyExists %d' % s)
        if self.closed:
            raise RuntimeError('saved after close')
        EV.append(dict(e='save', s=s))
        self.disk.add(s)

    def wait_until_finished(self):
        pass

    def close(self):
        self.closed = True

    def should_save(self, step):
        return step not in self.disk


def run(c, disk, acts, fail_at, exc, part):
    """One run of train(); appends events to EV.  acts: results of successive
    action calls.  Returns True if the job may be restarted."""
    import clu.metrics
    import jax
    import jax.numpy as jnp
    from t5x import train as tl, trainer as trl, utils
    first = max(disk) if disk else c['init']
    sums = []
    acts = iter(acts)
    cur = {}
    chunks = [0]

    class Init:
        train_state_axes = None
        global_train_state_shape = None

        def __init__(self, **kw):
            pass

        def from_scratch(self, rng):
            return State(c['init'])

    class Tr(trl.BaseTrainer):
        def __init__(self, **kw):
            super().__init__(**kw)
            cur['t'] = self

        def train(self, batch_iter, num_steps, start_step=None):
            chunks[0] += 1
            if chunks[0] > 300 or num_steps < 1:
                EV.append(dict(e='chunk', s=int(self.train_state.step), n=int(num_steps)))
                raise Loop()
            EV.append(dict(e='chunk', s=int(start_step if start_step is not None else self.train_state.step),
                           n=int(num_steps)))
            return super().train(batch_iter, num_steps, start_step)

        def compile_train(self, batch):
            pass

        def compile_eval(self, batches):
            pass

        @property
        def _partitioned_train_step(self):
            def f(state, batch):
                EV.append(dict(e='step', s=int(state.step)))
                return State(state.step + 1), {'loss': clu.metrics.LastValue.from_model_output(
                    jnp.asarray([1.0]))}
            return f

        @property
        def _partitioned_eval_step(self):
            def f(state, batch):
                return {'loss': clu.metrics.LastValue.from_model_output(jnp.asarray([1.0]))}
            return f

        def eval(self, batch_iters):
            EV.append(dict(e='eval', kind='teval', s=int(self.train_state.step)))
            return super().eval(batch_iters)

    class Evaluator:
        eval_tasks = ['t']

        def __init__(self, *a, **k):
            pass

        def evaluate(self, state, axes=None):
            EV.append(dict(e='eval', kind='ieval', s=int(state.step)))
            return types.SimpleNamespace(result=lambda: {'t': {'acc': 1.0}})

        def close(self):
            pass

    class Act(trl.BaseAction):
        """One of n actions of a mode; the last one logs the common result."""

        def __init__(self, mode, k, n, ran):
            self.mode, self.k, self.n, self.ran = mode, k, n, ran

        def run(self, train_state, metrics_by_task):
            r = next(acts, False)
            self.ran.append((self.k, r))
            if self.k == self.n - 1:
                if [k for k, _ in self.ran] != list(range(self.n)):
                    EV.append(dict(e='error', what='actions run: %s' % self.ran))
                EV.append(dict(e='act', mode=self.mode, r=any(x for _, x in self.ran),
                               s=int(train_state.step)))
                del self.ran[:]
            return r

    def actions(mode):
        n, ran = c.get('nacts', 1), []
        return [Act(mode, k, n, ran) for k in range(n)]

    def restore(init, partitioner, cfg, path, rng, **kw):
        m = Manager(disk, c['orbax'], None)
        return (State(max(disk)) if disk else None), m

    ds = types.SimpleNamespace(batch_size=1, seed=None)
    save = utils.SaveCheckpointConfig(period=c['period'] or None,
                                      checkpoint_steps=c['order'] if c['listed'] else c['nolist'])
    if not c['period'] and not c['listed'] and c['nosave']:
        save = None
    model = types.SimpleNamespace(FEATURE_CONVERTER_CLS=None, optimizer_def=None,
                                  get_initial_variables=None)
    old = (tl.utils.create_checkpoint_manager_and_restore, tl.utils.log_model_info,
           tl.eval_lib.InferenceEvaluator, trl.metric_writers.create_default_writer,
           tl.utils.get_first_valid_restore_config_and_paths, tl.tf.io.gfile.makedirs)
    tl.utils.create_checkpoint_manager_and_restore = restore
    tl.utils.log_model_info = lambda *a, **k: None
    tl.eval_lib.InferenceEvaluator = Evaluator
    tl.utils.get_first_valid_restore_config_and_paths = lambda cfgs: (None, [])
    tl.tf.io.gfile.makedirs = lambda d: None
    trl.metric_writers.create_default_writer = lambda d, collection=None, **k: Writer(
        sums if collection == 'train' else [])
    ok = True
    gc.enable()
    n0 = len(EV)
    EV.append(dict(e='start'))
    try:
        end, state = tl.train(
            model=model, train_dataset_cfg=ds, train_eval_dataset_cfg=ds if c['te'] else None,
            infer_eval_dataset_cfg=ds if c['ie'] else None,
            checkpoint_cfg=utils.CheckpointConfig(save=save), partitioner=part, trainer_cls=Tr,
            model_dir='/nonexistent/verif', total_steps=c['total'], eval_steps=1,
            eval_period=c['evalp'], relative_steps=c['rel'] or None,
            stats_period=c['stats'] or None, random_seed=0,
            summarize_config_fn=lambda *a: None,
            get_dataset_fn=lambda *a, **k: make_iter(fail_at, exc),
            concurrent_metrics=c['conc'], actions={m: actions(m) for m in c['acts']} or None,
            train_eval_get_dataset_fn=lambda *a, **k: {'t': eval_ds()},
            run_eval_before_training=c['before'], train_state_initializer_cls=Init,
            use_orbax=c['orbax'], verify_matching_vocabs_fn=None, gc_period=c['gcp'])
        EV.append(dict(e='end', s=int(end), state=int(state.step), gc=gc.isenabled(), sums=list(sums)))
    except trl.PreemptionError:
        EV.append(dict(e='preempted'))
    except Boom:
        pass
    except Loop:
        ok = False
    except ValueError as e:
        if 'must all be' in str(e):
            del EV[n0:]
            EV.append(dict(e='invalid'))
        elif 'Unexpected total_steps' in str(e):
            EV.append(dict(e='reject'))
        else:
            EV.append(dict(e='error', what=repr(e)[:200]))
        ok = False
    except Exception as e:  # pylint: disable=broad-except
        EV.append(dict(e='error', what='%s: %s' % (type(e).__name__, str(e)[:200])))
        ok = False
    finally:
        gc.enable()
        (tl.utils.create_checkpoint_manager_and_restore, tl.utils.log_model_info,
         tl.eval_lib.InferenceEvaluator, trl.metric_writers.create_default_writer,
         tl.utils.get_first_valid_restore_config_and_paths, tl.tf.io.gfile.makedirs) = old
        if 't' in cur:
            cur['t'].close()
    return ok
