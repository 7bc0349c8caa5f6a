"""Planted bugs for C25."""
U = 't5x/utils.py'
DATA = '''
import os
import boot; boot.setup()
import numpy as np, jax, seqio, tensorflow as tf
from t5x import utils, partitioning
def task(name, n, splits=('train',)):
  v = seqio.PassThroughVocabulary(size=1000)
  seqio.TaskRegistry.add(name, source=seqio.FunctionDataSource(
      lambda split, shuffle_files=False, seed=None: tf.data.Dataset.range(n).map(lambda i: dict(x=tf.cast(i, tf.int32))), splits=list(splits)),
      preprocessors=[], output_features=dict(x=seqio.Feature(v, add_eos=False, rank=0)))
  return name
class Plain(seqio.FeatureConverter):
  TASK_FEATURES = MODEL_FEATURES = dict(x=seqio.FeatureConverter.FeatureSpec(dtype=tf.int32, rank=0))
  def __call__(self, ds, task_feature_lengths): return ds
  def _convert_features(self, ds, task_feature_lengths): return ds
  def get_model_feature_lengths(self, task_feature_lengths): return task_feature_lengths
def conf(name, batch, **kw):
  return utils.DatasetConfig(**dict(dict(mixture_or_task_name=name, task_feature_lengths={}, split='train', batch_size=batch, shuffle=False, seed=3), **kw))
class P(partitioning.PjitPartitioner):
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ('data', 'model'))
def one(ds, batch):
  p = P(num_partitions=1)
  return utils.prepare_train_iter(ds, partitioner=p, data_layout=p.get_data_layout(batch), checkpoint_cfg=utils.CheckpointConfig(
      save=utils.SaveCheckpointConfig(save_dataset=True), restore=utils.RestoreCheckpointConfig(path=[], restore_dataset=True)))
def take(it, k=1): return [np.asarray(next(it)['x']).tolist() for _ in range(k)]
work = os.environ['TMPDIR']
'''
SEEDS = [
 dict(id='c25-blocks-by-device-id', property='C25', file=U, files=['harness/topo.py'],
  old="""  for d, idx in device_to_idxs.items():
    hashed_idx = _hashed_index(idx)
""",
  new="""  # In a fixed order, whatever the order of the mapping.
  for d in sorted(device_to_idxs, key=lambda d: d.id):
    hashed_idx = _hashed_index(device_to_idxs[d])
""",
  needs='a host whose devices are numbered in another order than the rows of the mesh that they hold (a submesh of accelerators laid across a host)',
  what='rows of a host are put on the wrong ones of its devices, so that the global batch is permuted differently from the declared sharding',
  demo=DATA + '''
import topo
B = 8
for h in range(2):
  devs = topo.tpu((2, 4, 1, 1), (2, 2, 1, 1), None, 'TPU v3')
  with topo.world(devs, h), topo.placement():
    p = partitioning.PjitPartitioner(model_parallel_submesh=(1, 1, 1, 1), num_partitions=None)
    # rows of the batch along y first
    p.__dict__['mesh'] = None
    grid = np.array(sorted(devs, key=lambda d: (d.process_index, d.coords[0], d.coords[1]))).reshape(8, 1)
    q = type('Q', (), dict(mesh=jax.sharding.Mesh(grid, ('data', 'model')), data_partition_spec=jax.sharding.PartitionSpec('data')))()
    x = np.arange(4) + 4 * h
    it = utils.ShardedDatasetIterator(iter([dict(x=x)]), q, dict(x=(B,)))
    got = next(it)['x'].parts
    for i, d in enumerate(grid.reshape(-1)):
      if d.process_index == h:
        assert got[d.id].tolist() == [i], (d, got[d.id], i)
'''),
 dict(id='c25-reset-keeps-checkpoint', property='C25', file=U,
  old="""  def reset(self):
    return self._iterator.reset()
""",
  new="""  def reset(self):
    if isinstance(self._iterator, clu.data.dataset_iterator.TfDatasetIterator):
      # Start over without building the dataset again.
      self._iterator.iterator = iter(self._iterator._dataset)  # pylint: disable=protected-access
      return None
    return self._iterator.reset()
""",
  needs='a reset, then some batches, then a save, then a restore',
  what='the saved position is that of the iterator before the reset',
  demo=DATA + '''
ds = lambda: utils.get_dataset(conf('t', 2), 0, 1, Plain, 1)
task('t', 20)
it = one(ds(), 2)
take(it, 4)
it.reset()
assert take(it) == [[0, 1]]
it.save(os.path.join(work, 'a'))
new = one(ds(), 2)
new.restore(os.path.join(work, 'a'))
assert take(new, 2) == [[2, 3], [4, 5]]
'''),
 dict(id='c25-save-once', property='C25', file=U,
  old="""  def save(self, filename):
    return self._iterator.save(filename)
""",
  new="""  def save(self, filename):
    # The chief of another attempt may have written it already.
    if glob.glob(os.fspath(filename) + '*'):
      return None
    return self._iterator.save(filename)
""",
  more=[(U, "import functools\n", "import functools\nimport glob\n")],
  needs='two saves under one name with batches between them, and a restore',
  what='the position of the first save is restored: batches are repeated',
  demo=DATA + '''
task('t', 20)
ds = lambda: utils.get_dataset(conf('t', 2), 0, 1, Plain, 1)
it = one(ds(), 2)
take(it)
it.save(os.path.join(work, 'a'))
take(it, 2)
it.save(os.path.join(work, 'a'))
new = one(ds(), 2)
new.restore(os.path.join(work, 'a'))
assert take(new) == [[6, 7]]
'''),
 dict(id='c25-seed-by-clock', property='C25', file=U,
  old="seed = int(multihost_utils.broadcast_one_to_all(np.int32(time.time())))",
  new="seed = int(time.time())",
  needs='hosts whose clocks differ, and no configured seed',
  what='hosts shuffle differently (or refuse to start), so that shards of shuffled evaluation data overlap',
  demo=DATA + '''
from jax.experimental import multihost_utils as mu
import time
shared = []
def agree(x, *a, **k):
  shared.append(x)
  return shared[0]
mu.broadcast_one_to_all = agree
mu.assert_equal = lambda *a, **k: None
now = time.time()
task('t', 40, ['validation'])
def read(s, n):
  time.time = lambda: now + 1000 * s
  d = utils.get_training_eval_datasets(conf('t', 8, split='validation', shuffle=True, seed=None), s, n, 1, Plain)['t']
  return [b['x'].tolist() for b in d.as_numpy_iterator()][0]
whole = read(0, 1)
assert sorted(read(0, 2) + read(1, 2)) == sorted(whole)
'''),
 dict(id='c25-last-batch-rounds-down', property='C25', file=U,
  old="""  if cfg.batch_size % num_shards:
    raise ValueError(
        f'Batch size ({cfg.batch_size}) must be divisible by number of '
        f'shards ({num_shards}).'
    )

  def _repeat""",
  new="""  if cfg.batch_size < num_shards:
    raise ValueError(
        f'Batch size ({cfg.batch_size}) must be at least the number of '
        f'shards ({num_shards}).'
    )

  def _repeat""",
  needs='an evaluation batch that the shards do not divide',
  what='evaluation runs on smaller batches than configured, silently, instead of refusing',
  demo=DATA + '''
task('t', 15, ['validation'])
try:
  d = utils.get_training_eval_datasets(conf('t', 5, split='validation'), 0, 2, 2, Plain)['t']
except ValueError:
  pass
else:
  assert 2 * len(next(iter(d))['x']) == 5
'''),
]
for _s in SEEDS:
    _s['edits'] = [(_s.pop('file'), _s.pop('old'), _s.pop('new'))] + _s.pop('more', [])
    _s['breaks'] = _s.pop('what')
