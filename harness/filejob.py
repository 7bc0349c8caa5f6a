"""Runs the real infer() on small tasks, taking pictures of its directory after every file operation."""
import json
import os
import random
import shutil
import threading
import time
import types


class Boom(Exception):
    pass


class Watch:
    """Pictures of a directory: [(position in events, {path: bytes})]."""

    def __init__(self, root, look):
        self.root, self.look = root, look
        self.events, self.pics = [], []
        self.last = self.seen = None
        self.lock = threading.RLock()
        self.rm = random.Random(0)
        self.off = False

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            out[os.path.relpath(d, self.root)] = None
            for f in fs:
                p = os.path.join(d, f)
                try:
                    with _open(p, 'rb') as h:
                        out[os.path.relpath(p, self.root)] = h.read()
                except FileNotFoundError:
                    pass
        return out

    def snap(self, pic=None):
        with self.lock:
            if self.off:
                return
            pic = self.files() if pic is None else pic
            if pic == self.last:
                return
            self.last = pic
            seen = self.look(pic)
            if seen != self.seen:
                self.seen = seen
                self.events.append(dict(op='look', **seen))
            self.pics.append((len(self.events), pic))

    def put(self, pic):
        """Makes the directory what it was in a picture."""
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        for p in sorted(pic):
            q = os.path.join(self.root, p)
            if pic[p] is None:
                os.makedirs(q, exist_ok=True)
        for p, b in pic.items():
            if b is not None:
                with _open(os.path.join(self.root, p), 'wb') as h:
                    h.write(b)


_open = open
_cur = [None]       # the watch of the running job
_futs = []
_rm = shutil.rmtree


def _snap():
    if _cur[0] is not None:
        _cur[0].snap()


def install():
    if _futs is None or getattr(install, 'done', False):
        return
    install.done = True
    import concurrent.futures as cf
    import tensorflow as tf
    from tensorflow.io import gfile
    real = {}

    def mk(n):
        real[n] = getattr(gfile, n)

        def f(*a, **k):
            r = real[n](*a, **k)
            _snap()
            return r
        setattr(gfile, n, f)
    for n in ('rename', 'makedirs', 'mkdir', 'remove', 'copy'):
        mk(n)
    real_rmtree = gfile.rmtree

    def rmtree(path):
        w = _cur[0]
        if w is None or not os.path.abspath(str(path)).startswith(w.root + os.sep):
            return real_rmtree(path)
        fs = [os.path.join(d, f) for d, _, x in os.walk(path) for f in x]
        w.rm.shuffle(fs)
        for f in fs:
            os.remove(f)
            w.snap()
        real_rmtree(path)
        w.snap()
    gfile.rmtree = rmtree

    class File(gfile.GFile):
        def write(self, s):
            if _cur[0] is None or len(s) < 2:
                r = super().write(s)
            else:
                super().write(s[:len(s) // 2])
                self.flush()
                _snap()
                r = super().write(s[len(s) // 2:])
            if _cur[0] is not None:
                self.flush()
                _snap()
            return r

        def close(self):
            super().close()
            _snap()

        def __exit__(self, *a):
            self.close()
    gfile.GFile = File
    for n in ('write', 'save'):
        def mkw(real_w):
            def write(self, path, *a, **k):
                w = _cur[0]
                if w is None:
                    return real_w(self, path, *a, **k)
                before = w.files()
                r = real_w(self, path, *a, **k)
                after = w.files()
                # the data of a checkpoint appears before its index
                w.snap(dict(before, **{p: b for p, b in after.items() if '.data-' in p}))
                w.snap()
                return r
            return write
        setattr(tf.train.Checkpoint, n, mkw(getattr(tf.train.Checkpoint, n)))
    real_submit = cf.ThreadPoolExecutor.submit

    def submit(self, fn, *a, **k):
        f = real_submit(self, fn, *a, **k)
        if _cur[0] is not None and getattr(fn, '__module__', '').startswith('t5x'):
            _futs.append(f)
        return f
    cf.ThreadPoolExecutor.submit = submit


FEATURES = None
_n = [0]


def task(rows):
    """Registers a task with the given ids; returns its name."""
    import numpy as np
    import seqio
    import tensorflow as tf
    _n[0] += 1
    name = 'job_%d' % _n[0]
    data = [dict(inputs=[i % 50 + 2] + [3] * (i % 4), targets=[i % 7 + 2] * (1 + i % 3), pre=b'row %d' % i) for i in rows]

    def fn(split, shuffle_files=False, seed=None):
        ds = tf.data.Dataset.from_tensor_slices(dict(
            inputs=tf.ragged.constant([d['inputs'] for d in data], dtype=tf.int32),
            targets=tf.ragged.constant([d['targets'] for d in data], dtype=tf.int32),
            inputs_pretokenized=np.asarray([d['pre'] for d in data])))
        return ds.map(lambda x: dict(inputs=ragged(x['inputs']), targets=ragged(x['targets']),
                                     inputs_pretokenized=x['inputs_pretokenized']))

    def ragged(x):
        return x.to_tensor() if isinstance(x, tf.RaggedTensor) else x
    v = seqio.PassThroughVocabulary(size=10000, eos_id=1)
    seqio.TaskRegistry.add(name, source=seqio.FunctionDataSource(fn, splits=['infer']), preprocessors=[],
                           output_features=dict(inputs=seqio.Feature(v, add_eos=False), targets=seqio.Feature(v, add_eos=False)))
    return name


def mixture(tasks):
    import seqio
    _n[0] += 1
    seqio.MixtureRegistry.add('mix_%d' % _n[0], [(t, 1.0) for t in tasks])
    return 'mix_%d' % _n[0]


def right(mode, i):
    """What the model says of row i: its first token, or score."""
    return (i % 50 + 2) * 3 + 1 if mode != 'score' else (i % 50 + 2) * 2 + (i % 7 + 2)


def make_model():
    import jax
    import jax.numpy as jnp
    import seqio

    class Model:
        FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter
        get_initial_variables = None

        def predict_batch(self, params, batch, rng=None):
            x = batch['encoder_input_tokens']
            noise = jax.random.randint(rng, (x.shape[0], 1), 1, 1000)
            return jnp.concatenate([x[:, :1] * params + 1, noise, jnp.zeros_like(noise)], 1)

        def predict_batch_with_aux(self, params, batch, rng=None):
            p = self.predict_batch(params, batch, rng)
            return p, dict(scores=p[:, 0] / 2, more=dict(a=p[:, :2]))

        def score_batch(self, params, batch):
            return batch['encoder_input_tokens'][:, 0] * 2. + batch['decoder_target_tokens'][:, 0]
    return Model()


class Job:
    """One configuration of an inference job, run over and over in one directory."""

    def __init__(self, root, mode, n, batch, period, shards=1, shard=0, tasks=1, ckpt=True, merge=True, extension='jsonl'):
        self.root = os.path.join(root, 'out')
        self.mode, self.batch, self.period = mode, batch, period
        self.shards, self.shard, self.ckpt, self.merge, self.ext = shards, shard, ckpt, merge, extension
        self.ids = [list(range(100 * t, 100 * t + n)) for t in range(tasks)]
        self.names = [task(i) for i in self.ids]
        self.target = self.names[0] if tasks == 1 else mixture(self.names)
        self.reference = {}     # id: its line in an uninterrupted run
        self.model = make_model()
        os.makedirs(self.root)

    def rows(self):
        return [i for ids in self.ids for i in ids[self.shard::self.shards]]

    def look(self, pic):
        """(marker there, records of the output) over all tasks."""
        done = all(f + '.COMPLETED' in pic for f in self.outputs())
        return dict(done=done, out=[self.record(l) for l in self.texts(pic)] if done else [])

    def outputs(self):
        return ['%s-%s.%s-%05d-of-%05d' % (t, self.mode, self.ext, self.shard, self.shards) for t in self.names]

    def texts(self, pic):
        """Lines of the outputs."""
        lines = []
        for f in self.outputs():
            if self.merge:
                text = pic.get(f) or b''
            else:
                parts = sorted(p for p in pic if os.path.basename(p).startswith(f + '-chunk') and not p.endswith('.COMPLETED'))
                text = b''.join(pic[p] for p in parts)
            lines += text.split(b'\n')[:-1] + ([b'cut'] if text and not text.endswith(b'\n') else [])
        return lines

    def record(self, line):
        try:
            j = json.loads(line)
            i = int(j['inputs']['inputs_pretokenized'].split()[1])
            p = j['score'] if self.mode == 'score' else j['prediction'][0]
            ok = p == right(self.mode, i) and self.reference.get(i, line) == line
            if self.mode == 'predict_with_aux':
                ok = ok and j['aux'] == dict(scores=p / 2, more=dict(a=j['prediction'][:2]))
            return dict(id=i, right=bool(ok))
        except (ValueError, KeyError, IndexError, TypeError):
            return dict(id=-1, right=False)

    def run(self, start=None, die=None, bad_write=None, seed=0):
        """Runs the job once from a picture.  Returns its watch, with the events."""
        import jax
        from t5x import infer, partitioning, utils
        install()
        w = Watch(self.root, self.look)
        w.rm = random.Random(seed)
        w.put(start or {})
        w.last = w.files()
        before = w.files()
        w.seen = self.look(w.last)
        w.events.append(dict(op='start'))
        calls = [0, 0]
        real_get, real_restore, real_log = utils.get_infer_fn, utils.create_checkpoint_manager_and_restore, utils.log_model_info
        P = jax.sharding.PartitionSpec

        def get_infer_fn(*a, **k):
            f = real_get(*a, **k)

            def go(ds, *b, **kk):
                calls[0] += 1
                if calls[0] == die:
                    raise Boom()
                ids = [self.row_of(x) for _, x in ds.as_numpy_iterator()]
                r = f(ds, *b, **kk)
                with w.lock:
                    w.events.append(dict(op='infer', rows=ids))
                return r
            return go

        def write_fn(*a, **k):
            calls[1] += 1
            if calls[1] == bad_write:
                time.sleep(.3)      # the job goes on meanwhile
                raise Boom()
            return infer.write_inferences_to_file(*a, **k)
        pt = types.SimpleNamespace(
            partition=lambda f, in_axis_resources, out_axis_resources: jax.jit(f), data_partition_spec=P('data'), mesh=None,
            get_data_layout=lambda b=None, *a, **k: partitioning.DataLayout(
                batch_size=b, shard_id=0, num_shards=1, is_first_host_in_replica_set=True))
        init = lambda **k: types.SimpleNamespace(train_state_axes=types.SimpleNamespace(params=None, flax_mutables=None),
                                                 global_train_state_shape=None)
        self.tables()
        del _futs[:]
        how = 'end'
        try:
            utils.get_infer_fn = get_infer_fn
            utils.create_checkpoint_manager_and_restore = lambda *a, **k: (
                types.SimpleNamespace(params=3, flax_mutables=None, step=7), None)
            utils.log_model_info = lambda *a, **k: None
            _cur[0] = w
            infer.infer(
                mode=self.mode, model=self.model,
                dataset_cfg=utils.DatasetConfig(
                    mixture_or_task_name=self.target, task_feature_lengths=dict(inputs=6, targets=4), split='infer',
                    batch_size=self.batch, shuffle=False, seed=0, pack=False),
                restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path='/nowhere', mode='specific'),
                partitioner=pt, output_dir=self.root, checkpoint_period=self.period, shard_id=self.shard,
                num_shards=self.shards, merge_chunked_results=self.merge, write_fn=write_fn,
                checkpoint_ds_iter=self.ckpt, train_state_initializer_cls=init, summarize_config_fn=lambda **k: None,
                verify_matching_vocabs_fn=None, file_extension=self.ext)
        except Boom:
            how = 'die' if bad_write is None else 'crash'
        except Exception as e:  # pylint: disable=broad-except
            how = 'raised'
            err = '%s: %s' % (type(e).__name__, str(e)[:300])
        finally:
            import concurrent.futures as cf
            cf.wait(_futs, timeout=60)
            w.snap()
            _cur[0] = None
            utils.get_infer_fn, utils.create_checkpoint_manager_and_restore, utils.log_model_info = \
                real_get, real_restore, real_log
        if how == 'end':
            w.events.append(dict(op='end', out=self.look(w.last)['out'],
                                 changed=bool(self.look(before)['done'] and self.results(before) != self.results(w.last))))
        elif how == 'raised':
            w.events.append(dict(op='raised', what=err))
        else:
            w.events.append(dict(op=how))
        return w

    def learn(self, pic):
        """Takes the records of an uninterrupted run as the reference."""
        for line in self.texts(pic):
            try:
                self.reference[int(json.loads(line)['inputs']['inputs_pretokenized'].split()[1])] = line
            except (ValueError, KeyError, IndexError, TypeError):
                pass

    def results(self, pic):
        return {p: b for p, b in pic.items() if b is not None and (not self.merge or not p.startswith('tmp-'))}

    def tables(self):
        self.by = {}
        for ids in self.ids:
            for i in ids:
                self.by.setdefault((tuple([i % 50 + 2] + [3] * (i % 4)), tuple([i % 7 + 2] * (1 + i % 3))), []).append(i)

    def row_of(self, x):
        """Which row model features are of."""
        z = lambda a: tuple(int(v) for v in a if v)
        c = self.by[(z(x['encoder_input_tokens']), z(x['decoder_target_tokens']))]
        assert len(c) == 1
        return c[0]
