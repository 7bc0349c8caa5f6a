"""Examples whose every element tells which example it belongs to, and readers of them."""
import numpy as np

_n = [0]
LENGTHS = dict(a=3, b=2)


def task(n, splits=('train',)):
    """A seqio task of examples 0..n-1."""
    import seqio
    import tensorflow as tf
    _n[0] += 1
    name = 'feed_%d' % _n[0]

    def fn(split, shuffle_files=False, seed=None):
        ds = tf.data.Dataset.range(n)
        return ds.map(lambda i: dict(
            a=tf.cast(i, tf.int32) * 16 + tf.range(3),
            b=tf.cast(i, tf.int32) * 16 + tf.reshape(tf.range(4), (2, 2)),
            c=tf.cast(i, tf.int32) * 16))
    v = seqio.PassThroughVocabulary(size=100000)
    f = lambda rank: seqio.Feature(v, add_eos=False, rank=rank)
    seqio.TaskRegistry.add(name, source=seqio.FunctionDataSource(fn, splits=list(splits)), preprocessors=[],
                           output_features=dict(a=f(1), b=f(2), c=f(0)))
    return name


def mixture(tasks):
    import seqio
    _n[0] += 1
    seqio.MixtureRegistry.add('feedmix_%d' % _n[0], [(t, 1.0) for t in tasks])
    return 'feedmix_%d' % _n[0]


def converter():
    import seqio
    import tensorflow as tf

    class Plain(seqio.FeatureConverter):
        """Leaves everything as it is."""
        TASK_FEATURES = dict(a=seqio.FeatureConverter.FeatureSpec(dtype=tf.int32),
                             b=seqio.FeatureConverter.FeatureSpec(dtype=tf.int32, rank=2),
                             c=seqio.FeatureConverter.FeatureSpec(dtype=tf.int32, rank=0))
        MODEL_FEATURES = TASK_FEATURES

        def __call__(self, ds, task_feature_lengths):
            return ds

        def _convert_features(self, ds, task_feature_lengths):
            return ds

        def get_model_feature_lengths(self, task_feature_lengths):
            return dict(task_feature_lengths)
    return Plain


def ids(batch):
    """Which examples the rows of a batch are; -1 for rows that are no whole example."""
    a, b, c = (np.asarray(batch[k]) for k in 'abc')
    if not (a.ndim == 2 and b.ndim == 3 and c.ndim == 1 and len(a) == len(b) == len(c)):
        return [-1]
    out = []
    for i in range(len(c)):
        e = int(c[i]) // 16
        good = c[i] == e * 16 and a[i].tolist() == [e * 16 + j for j in range(3)] and \
            b[i].reshape(-1).tolist() == [e * 16 + j for j in range(4)]
        out.append(e if good else -1)
    return out


def memory_iterator(script, per):
    """A clu iterator over given examples that is no tf.data dataset."""
    import json
    import clu.data.dataset_iterator as di

    class It(di.DatasetIterator):
        def __init__(self):
            self.pos = 0

        def __next__(self):
            rows = np.array(script[self.pos * per:(self.pos + 1) * per], np.int32)
            if len(rows) < per:
                raise StopIteration
            self.pos += 1
            return dict(a=rows[:, None] * 16 + np.arange(3, dtype=np.int32),
                        b=rows[:, None, None] * 16 + np.arange(4, dtype=np.int32).reshape(2, 2), c=rows * 16)

        def reset(self):
            self.pos = 0

        @property
        def element_spec(self):
            s = lambda *shape: di.ArraySpec(dtype=np.int32, shape=(per,) + shape)
            return dict(a=s(3), b=s(2, 2), c=s())

        def save(self, filename):
            with open(filename, 'w') as f:
                json.dump(self.pos, f)

        def restore(self, filename):
            with open(filename) as f:
                self.pos = json.load(f)
    return It()
