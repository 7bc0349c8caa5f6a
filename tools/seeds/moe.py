"""Planted bugs for C28."""
M = 't5x/contrib/moe/'
P, C, T, O, U = (M + x + '.py' for x in ('partitioning', 'checkpoints', 'trainer', 'models', 'training_utils'))
MESH = """
def part(e):
  class Q(mp.MoePjitPartitioner):
    mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(8 // e, e, 1), ['data', 'expert', 'model'])
  return Q(num_expert_partitions=e, num_partitions=1)
"""
DEMO = """
import boot; boot.setup(8)
import numpy as np, jax, jax.numpy as jnp
from t5x import partitioning
from t5x.contrib.moe import partitioning as mp, training_utils as tu, models as mm
PS = jax.sharding.PartitionSpec
""" + MESH + """%s
"""
SEEDS = [
    dict(id='c28-experts-by-gcd', property='C28',
         edits=[(P, "  while data_axis_size % expert_axis_size != 0:\n    expert_axis_size -= 1\n",
                 "  expert_axis_size = int(np.gcd(data_axis_size, expert_axis_size))\n")],
         needs='a number of expert partitions that does not divide the data axis and is not coprime-free with it (6 over 8 devices, 3 over 8)',
         breaks='The expert axis is not the largest that fits.',
         demo=DEMO % "partitioning.default_mesh = lambda *a: jax.sharding.Mesh(np.array(jax.devices()).reshape(8, 1), ['data', 'model'])\nfor k, e in ((1, 1), (4, 4), (6, 4), (3, 2), (7, 4), (16, 8)):\n  m = mp.default_moe_mesh(k, 1)\n  assert dict(m.shape) == dict(data=8 // e, expert=e, model=1), (k, m.shape)"),
    dict(id='c28-shard-id-order', property='C28',
         edits=[(P, "            self._local_chunker.chunk_ids['data']\n            + self._local_chunker.chunk_ids['expert']\n            * self._local_chunker.num_chunks['data']\n",
                 "            self._local_chunker.chunk_ids['expert']\n            + self._local_chunker.chunk_ids['data']\n            * self._local_chunker.num_chunks['expert']\n")],
         needs='hosts that differ along both the data and the expert axis',
         breaks='Hosts read shards that are not those of the rows on their devices.',
         demo=DEMO % """
class L:
  def __init__(self, d, e):
    self.chunk_ids, self.num_chunks = dict(data=d, expert=e), dict(data=2, expert=2)
    self.global_mesh = type('M', (), dict(shape=dict(data=4, expert=2, model=1)))()
  def get_local_chunk_info(self, *a):
    return partitioning.LocalChunkInfo((), 0)
for d in (0, 1):
  for e in (0, 1):
    p = mp.MoePjitPartitioner(num_expert_partitions=2, num_partitions=1)
    p.__dict__['_local_chunker'] = L(d, e)
    y = p.get_data_layout(8)
    assert (y.shard_id, y.num_shards) == (2 * e + d, 4), (d, e, y)"""),
    dict(id='c28-scale-unsorted', property='C28',
         edits=[(U, "  return [(val_names[i], v) for i, v in zip(inv_perm, vals)], tree_def",
                 "  return [(val_names[i], v) for i, v in zip(perm, vals)], tree_def"),
                (U, "    keys = sorted(param_tree.keys())\n", "    keys = sorted(param_tree.keys(), key=lambda k: ('expert' not in k, k))\n")],
         needs='a tree in which experts come between other parameters, with three or more leaves',
         breaks='The gradients of other parameters than the experts are rescaled.',
         demo=DEMO % """
g = {'a': {'k': 1.}, 'b_expert': {'k': 2., 'l': 5.}, 'c': {'k': 3.}, 'd': {'k': 4.}}
o = tu.scale_sharded_grads(g, tu.match_fn('.*expert.*'), 10)
assert o == {'a': {'k': 1.}, 'b_expert': {'k': 20., 'l': 50.}, 'c': {'k': 3.}, 'd': {'k': 4.}}, o"""),
    dict(id='c28-filter-any-factor', property='C28',
         edits=[(P, "    return training_utils.match_fn(r'.*expert.*/kernel/v_.*')", "    return training_utils.match_fn(r'.*expert.*/kernel/v.*')")],
         needs='a factored Adafactor whose expert kernels are too small to be factored',
         breaks='The second moments of experts that are not factored are given the axes (or shape) of factored ones.',
         demo=DEMO % """
from flax.core import freeze
from flax.linen import partitioning as fp
from t5x import adafactor, train_state as ts
v = freeze(dict(params={'expert': {'kernel': jnp.zeros((4, 8, 8))}}, params_axes={'expert': {'kernel_axes': fp.AxisMetadata(names=('expert', 'embed', 'mlp'))}}))
st = ts.FlaxOptimTrainState.create(adafactor.Adafactor(.1, logical_factor_rules={'expert': adafactor.FactorDim.BATCH, 'embed': adafactor.FactorDim.ROW, 'mlp': adafactor.FactorDim.COLUMN}), v)
p = mp.MoePjitPartitioner(num_expert_partitions=4, num_partitions=1)
s = p.get_logical_axes(st).state_dict()['state']['param_states']['expert']['kernel']
ok = lambda x: x is None or x == PS('expert', 'embed', 'mlp')
assert ok(s['v']) and s['v_row'] == PS('expert') and s['v_col'] == PS('expert'), s"""),
    dict(id='c28-cross-entropy-aux', property='C28',
         edits=[(O, "  cross_ent_loss = total_loss - z_loss - auxiliary_loss - router_z_loss\n",
                 "  cross_ent_loss = total_loss - z_loss - auxiliary_loss - (\n      diversity_metrics['router_z_loss'].mean()\n  )\n")],
         needs='a router z-loss whose factor is not one',
         breaks='The cross entropy that is reported contains auxiliary losses.',
         demo=DEMO % """
d = {k: jnp.asarray([2.]) for k in mm.MOE_METRICS}
a, z = mm._expert_losses(d, .5, .25)
m = mm._expert_metrics(d, 10. + a + z + 1, 1., a, z, 5)
x = m['cross_ent_loss']
assert abs(float(x.total) - 10) < 1e-5, x"""),
    dict(id='c28-layers-weighted', property='C28',
         edits=[(O, "        summed_metric += jnp.asarray(value, dtype=jnp.float32)\n        count += 1\n",
                 "        value = jnp.asarray(value, dtype=jnp.float32)\n        summed_metric = value if count == 0 else (summed_metric + value) / 2\n        count += 1\n"),
                (O, "    avg_metrics[metric] = summed_metric / count\n", "    avg_metrics[metric] = summed_metric\n")],
         needs='three or more expert layers',
         breaks='Auxiliary losses weigh the last expert layer most instead of being their mean.',
         demo=DEMO % """
s = {'intermediates': {'l%d' % i: {k: (jnp.asarray(float(i * i)),) for k in mm.MOE_METRICS} for i in range(3)}}
d = mm._extract_diversity_metrics(s)
assert abs(float(d['auxiliary_loss'].mean()) - 5 / 3) < 1e-5, d"""),
    dict(id='c28-override-stops', property='C28',
         edits=[(P, "    for resource in resources:\n      overridden_resources.append(_maybe_override_spec(resource))\n    return tuple(overridden_resources)\n",
                 "    for resource in resources[:2]:\n      overridden_resources.append(_maybe_override_spec(resource))\n    return tuple(overridden_resources) + tuple(resources[2:])\n")],
         needs='a function whose third argument is data (e.g. evaluation or inference with a random key before the batch)',
         breaks='Data is sharded over the data axis only and replicated over the experts.',
         demo=DEMO % """
p = part(4)
f = p.partition(lambda a, b, c: (a, b, c), in_axis_resources=(None, None, PS('data')), out_axis_resources=(None, None, PS('data')))
with p.mesh:
  o = f(1, 2, np.arange(8))
assert o[2].addressable_shards[0].data.shape == (1,), o[2].sharding"""),
    dict(id='c28-upcycle-states', property='C28',
         edits=[(C, "    m_or_v = param_name.endswith('/m') or param_name.endswith('/v')\n", "    m_or_v = 'param_states' in param_name\n")],
         needs='an optimizer with state arrays shaped like (parts of) the experts, other than m and v',
         breaks='Factored second moments of a dense model cannot be upcycled.',
         files=['harness/zoo.py'],
         demo=DEMO % """
import functools, tempfile, zoo
from flax.core import freeze
from flax.linen import partitioning as fp
from t5x import adafactor, checkpoints, state_utils, train_state as ts
from t5x.contrib.moe import checkpoints as mc
ax = lambda n: {'kernel_axes': fp.AxisMetadata(names=n)}
A = lambda: adafactor.Adafactor(.1, logical_factor_rules={'expert': adafactor.FactorDim.BATCH, 'embed': adafactor.FactorDim.ROW, 'mlp': adafactor.FactorDim.COLUMN}, min_dim_size_to_factor=1)
st = ts.FlaxOptimTrainState.create(A(), freeze(dict(params={'mlp': {'kernel': jnp.ones((8, 8))}}, params_axes={'mlp': ax(('embed', 'mlp'))})))
d = tempfile.mkdtemp()
q = zoo.partitioner(1, 1)
with q.mesh:
  checkpoints.Checkpointer(st, q, d).save(st)
p = part(4)
new = ts.FlaxOptimTrainState.create(A(), freeze(dict(params={'mlp': {'expert': {'kernel': jnp.zeros((4, 8, 8))}}}, params_axes={'mlp': {'expert': ax(('expert', 'embed', 'mlp'))}})))
fn = functools.partial(state_utils.apply_assignment_map, assignment_map=[('(.*)mlp/expert(.*)', '\\\\1mlp\\\\2')])
try:
  r = mc.UpcycleCheckpointer(new, p, d, num_experts=4).restore(state_transformation_fns=[fn])
  assert np.all(np.asarray(r.params['mlp']['expert']['kernel']) == 1)
  s = r.state_dict()['state']['param_states']['mlp']['expert']['kernel']
  assert s['v_row'].shape == (4, 8), s['v_row'].shape
except ValueError as e:
  raise SystemExit(str(e))"""),
    dict(id='c28-sharded-layout-batch', property='C28',
         edits=[(P, "    global_array_shape = (\n        num_expert_partitions,\n        batch_size // num_expert_partitions,\n    )\n    replica_id = self._local_chunker.get_local_chunk_info(\n        global_array_shape, ('expert', 'data')\n    ).replica_id\n",
                 "    replica_id = self._local_chunker.get_local_chunk_info(\n        (batch_size,), ('data',)\n    ).replica_id\n")],
         needs='hosts that differ along the expert axis',
         breaks='Only one host of those that differ along the expert axis counts as the first of its replica set, so the data of the others is lost.',
         demo=DEMO % """
calls = []
class L:
  chunk_ids, num_chunks = dict(data=0, expert=1), dict(data=1, expert=2)
  global_mesh = type('M', (), dict(shape=dict(data=4, expert=2, model=1)))()
  def get_local_chunk_info(self, shape, axes):
    return partitioning.LocalChunkInfo((), 0 if 'expert' in axes else 1)
p = mp.MoePjitPartitioner(num_expert_partitions=2, num_partitions=1)
p.__dict__['_local_chunker'] = L()
assert p.get_data_layout(8).is_first_host_in_replica_set"""),
    dict(id='c28-scale-in-microbatch', property='C28',
         edits=[(T, "          scale_factor=self._num_expert_partitions,\n", "          scale_factor=self._num_expert_partitions\n          / (self._num_microbatches or 1),\n")],
         needs='expert parallelism with several microbatches',
         breaks='Expert gradients are scaled down by the number of microbatches.',
         demo=DEMO % """
import unittest.mock as mock
from t5x.contrib.moe import trainer as mt
from t5x import trainer
got = []
t = mt.MoeTrainer.__new__(mt.MoeTrainer)
t.__dict__.update(_model=None, _num_microbatches=4, _num_expert_partitions=8, _sharded_match_fn=tu.match_fn('.*expert.*'), data_partition_spec=None,
                  _learning_rate_fn=lambda s: 1., _weight_metrics_computer=None, _train_state_axes=None, _get_step_rng=lambda s: None,
                  _base_rng=None, _partitioner=type('P', (), dict(partition=lambda self, f, **k: f))())
with mock.patch.object(trainer, 'accumulate_grads_microbatched', lambda *a, **k: ({'expert': 1., 'x': 1.}, {}, None)), \\
     mock.patch.object(trainer, 'apply_grads', lambda s, g, *a, **k: (got.append(g), (s, {}))[1]):
  t._partitioned_train_step(type('S', (), dict(step=0))(), {})
assert got == [{'expert': 8., 'x': 1.}], got"""),
]
