"""Planted bugs for C12."""
U = 't5x/utils.py'
DEMO = """
import boot; boot.setup()
import threading, types
import numpy as np
import jax
import jax.numpy as jnp
import flax
import tensorflow as tf
from jax.experimental import multihost_utils as mu
from t5x import partitioning, utils
P = jax.sharding.PartitionSpec
me = threading.local()
def infer(step, n, batch, shards=1, rng=None, **kw):
  bar, slots, out = threading.Barrier(shards, timeout=60), {}, {}
  def swap(x):
    slots[me.h] = x
    bar.wait()
    r = [slots[i] for i in range(shards)]
    bar.wait()
    return r
  if shards > 1:
    jax.process_count, jax.process_index = (lambda *a: shards), (lambda *a: me.h)
    mu.assert_equal = lambda x, fail_message='': None
    def up(x, mesh, spec):
      parts = swap(x)
      return (jax.tree.map(lambda *a: np.concatenate(a), *[p[0] for p in parts]), parts[0][1],
              np.concatenate([p[2] for p in parts]))
    mu.host_local_array_to_global_array = up
    mu.global_array_to_host_local_array = lambda x, mesh, spec: x
  def host(h):
    me.h = h
    pt = types.SimpleNamespace(
        partition=lambda f, in_axis_resources, out_axis_resources: jax.jit(f), data_partition_spec=P('data'), mesh=None,
        get_data_layout=lambda b: partitioning.DataLayout(batch_size=b // shards, shard_id=h, num_shards=shards,
                                                          is_first_host_in_replica_set=True))
    axes = types.SimpleNamespace(params=None, flax_mutables=None)
    ds = tf.data.Dataset.from_tensor_slices(dict(x=np.arange(10, 10 + n, dtype=np.int32))).enumerate()
    try:
      out[h] = utils.get_infer_fn(step, batch, axes, pt, **kw)(ds, types.SimpleNamespace(params={}, flax_mutables=None), rng)
    except BaseException as e:
      out[h] = e
      bar.abort()
  ts = [threading.Thread(target=host, args=(h,)) for h in range(shards)]
  [t.start() for t in ts]
  [t.join() for t in ts]
  for r in out.values():
    if isinstance(r, BaseException):
      raise r
  return out[0]
%s
"""
SEEDS = [
    dict(id='c12-padding-last', property='C12',
         edits=[(U, """  all_indices = all_indices[non_pad_idxs]
  all_inferences = jax.tree.map(lambda x: x[non_pad_idxs], all_inferences)
""", """  all_indices = all_indices[non_pad_idxs]
  # Padding is at the end, slices avoid a copy.
  num_examples = len(all_indices)
  all_inferences = jax.tree.map(lambda x: x[:num_examples], all_inferences)
""")],
         needs='several data shards and a dataset that does not fill the last batch',
         breaks='Padding lies within the gathered results, which are then paired with the wrong examples.',
         demo=DEMO % """r = infer(lambda params, batch: batch['x'], 5, 8, 2)
assert dict(r) == {i: 10 + i for i in range(5)}, r"""),
    dict(id='c12-one-key', property='C12',
         edits=[(U, "        step_rng, rng = jax.random.split(rng)\n      # Run fast inference on batch.", "        step_rng, _ = jax.random.split(rng)\n      # Run fast inference on batch.")],
         needs='randomised inference of more than one batch',
         breaks='Every batch is sampled with the same randomness.',
         demo=DEMO % """r = infer(lambda params, batch, rng: jax.random.bits(rng, batch['x'].shape), 4, 2, rng=jax.random.PRNGKey(3))
assert [o for _, o in r[:2]] != [o for _, o in r[2:]], r"""),
    dict(id='c12-aux-frozen', property='C12',
         edits=[(U, "        and isinstance(all_inferences[1], Mapping)\n", "        and isinstance(all_inferences[1], dict)\n")],
         needs='a model that returns its auxiliary outputs as a FrozenDict',
         breaks='Auxiliary outputs are not returned apart but inside every prediction.',
         demo=DEMO % """r = infer(lambda params, batch: (batch['x'], flax.core.freeze(dict(s=batch['x'] + 1))), 3, 2)
assert list(r[0]) == [(0, 10), (1, 11), (2, 12)] and list(r[1]['s']) == [11, 12, 13], r"""),
    dict(id='c12-per-shard-remainder', property='C12',
         edits=[(U, """      dataset_pad_amt = batch_size - dataset_remainder
      logging.info(""", """      dataset_pad_amt = -dataset_remainder % per_shard_batch_size
      logging.info(""")],
         needs='several data shards and a last batch that is short by a multiple of a shard part',
         breaks='The last rows of some shards are dropped.',
         demo=DEMO % """r = infer(lambda params, batch: batch['x'], 6, 8, 4)
assert dict(r) == {i: 10 + i for i in range(6)}, r"""),
]
