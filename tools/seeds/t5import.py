"""Planted bugs for C29."""
I, K = 't5x/checkpoint_importer.py', 't5x/checkpoints.py'
DEMO = """
import boot; boot.setup()
import os, tempfile
import numpy as np, jax, jax.numpy as jnp, tensorflow as tf
from flax.traverse_util import flatten_dict, unflatten_dict
from t5x import checkpoint_importer as ci
def imp(tensors, state=None, **kw):
  with tempfile.TemporaryDirectory() as d:
    k = sorted(tensors)
    tf.raw_ops.SaveV2(prefix=d + '/m', tensor_names=k, shape_and_slices=[''] * len(k), tensors=[tf.constant(tensors[n]) for n in k])
    if state is None:
      state = {x: v.shape for x, v in ci._maybe_correct_relpos_bias(ci._add_missing_param_states(ci.t5_importer.apply(ci.load_tf_ckpt(d + '/m')))).items()}
    st = unflatten_dict({tuple(x.split('/')): jax.ShapeDtypeStruct(s, np.float32) for x, s in state.items()})
    o = flatten_dict(ci.restore_from_t5_checkpoint(st, d + '/m', **kw), sep='/')
    return {x: np.asarray(v.get() if isinstance(v, ci.LazyArray) else v) for x, v in o.items()}
def f(*s):
  return np.random.default_rng(sum(s)).normal(size=s).astype(np.float32)
REL = '%%s/block_%%03d/layer_000/SelfAttention/relative_attention_bias'
%s
"""
SEEDS = [
    dict(id='c29-relpos-by-count', property='C29',
         edits=[(I, """  max_layer_ind = 0
  for k, v in t5_data.items():
    match = re.search(r'layers_(\\d+)/relpos_bias', k)
    if match:
      layer_ind = int(match.groups()[0])
      max_layer_ind = max(max_layer_ind, layer_ind)
""", """  max_layer_ind = 0
  for k in t5_data:
    match = re.search(r'encoder/layers_(\\d+)/relpos_bias', k)
    if match:
      max_layer_ind = max(max_layer_ind, int(match.group(1)))
""")],
         needs='biases of their own in every layer in a decoder-only model, or a model whose encoder has one layer',
         breaks='Relative biases of several decoder layers land on the same parameter.',
         demo=DEMO % """
a, b = f(2, 3), f(2, 4)
o = imp({REL % ('transformer', 0): a, REL % ('transformer', 1): b, 'global_step': np.int64(3)})
assert np.array_equal(o['target/decoder/layers_0/relpos_bias/rel_embedding'], a), list(o)
assert np.array_equal(o['target/decoder/layers_1/relpos_bias/rel_embedding'], b), list(o)"""),
    dict(id='c29-block-digit', property='C29',
         edits=[(I, "      f'{prefix}/{encdec}/layers_{int(blocknum)}/{layernorm_type}/scale{suffix}'",
                 "      f'{prefix}/{encdec}/layers_{blocknum[-1]}/{layernorm_type}/scale{suffix}'")],
         needs='a tower of more than ten layers',
         breaks='The layer norms of layer 10 and up overwrite those of the first layers.',
         demo=DEMO % """
t = {'encoder/block_%03d/layer_001/rms_norm/scale' % i: f(i + 2) for i in range(12)}
o = imp(dict(t, global_step=np.int64(3)))
for i in range(12):
  assert np.array_equal(o['target/encoder/layers_%d/pre_mlp_layer_norm/scale' % i], f(i + 2)), i"""),
    dict(id='c29-late-key', property='C29',
         edits=[(I, "          lambda x=k: ckpt_reader.get_tensor(x),\n      )\n      for k, s in ckpt_shape_map.items()\n",
                 "          lambda x=k: ckpt_reader.get_tensor(names.get(x.lower(), x)),\n      )\n      for k, s in ckpt_shape_map.items()\n"),
                (I, "  datamap = {  # pylint", "  names = {}\n  for k in sorted(ckpt_shape_map):\n    names.setdefault(re.sub(r'_slot_v[rc]$', '_slot_v', k), k)\n  datamap = {  # pylint")],
         needs='a checkpoint with the factored second moments',
         breaks='',
         demo=DEMO % "pass"),
    dict(id='c29-lazy-dtype', property='C29',
         edits=[(I, "          jnp.dtype(ckpt_dtype_map[k].as_numpy_dtype),\n", "          jnp.dtype(np.float32) if s else jnp.dtype(ckpt_dtype_map[k].as_numpy_dtype),\n")],
         needs='a checkpoint whose parameters are bfloat16',
         breaks='Imported tensors are not of the type they were stored with.',
         demo=DEMO % """
a = f(2, 3).astype(jnp.bfloat16)
o = imp({'shared/embedding': a, 'global_step': np.int64(3)})['target/token_embedder/embedding']
assert o.dtype == jnp.bfloat16 and np.array_equal(o, a), o.dtype"""),
    dict(id='c29-step-wraps', property='C29',
         edits=[(I, "      val.astype(np.int32).get() if isinstance(val, LazyArray) else val,", "      np.int32(np.float32(val.get())) if isinstance(val, LazyArray) else val,")],
         needs='a step that is no float32, like 16777217',
         breaks='The imported step is not that of the checkpoint.',
         demo=DEMO % """
for n in (0, 1000, 2**24 + 1):
  o = imp({'global_step': np.int64(n)})
  assert int(o['state/step']) == n, o"""),
    dict(id='c29-lax-shapes', property='C29',
         edits=[(I, "    if flat_state_dict[k].shape != v.shape:\n", "    if np.prod(flat_state_dict[k].shape) != np.prod(v.shape):\n")],
         needs='a model in which a parameter has another shape with the same number of elements',
         breaks='A parameter of another shape than the one of the model is imported instead of refused.',
         demo=DEMO % """
try:
  imp({'shared/embedding': f(2, 6), 'global_step': np.int64(3)}, {'target/token_embedder/embedding': (6, 2), 'state/step': (), 'state/param_states/token_embedder/embedding/m': (1,)})
except ValueError:
  pass
else:
  raise SystemExit('imported')"""),
    dict(id='c29-drop-before-shape', property='C29',
         edits=[(I, "      if k not in flat_state_dict:\n        t5_data.pop(k)\n", "      if k not in flat_state_dict or (\n          flat_state_dict[k].shape != t5_data[k].shape\n      ):\n        t5_data.pop(k)\n")],
         needs='strict=False and a parameter whose shape differs',
         breaks='A parameter of another shape is silently left out.',
         demo=DEMO % """
S = {'target/token_embedder/embedding': (2, 6), 'state/step': (), 'state/param_states/token_embedder/embedding/m': (1,)}
o = imp({'shared/embedding': f(2, 6), 'encoder/embedding': f(2, 6), 'global_step': np.int64(3)}, S, strict=False)
assert set(o) == set(S), list(o)
try:
  imp({'shared/embedding': f(6, 2), 'global_step': np.int64(3)}, S, strict=False)
except ValueError:
  pass
else:
  raise SystemExit('imported')"""),
    dict(id='c29-logits-slots', property='C29',
         edits=[(I, "SLOT_MAP = {'_slot_vc': 'v_col', '_slot_vr': 'v_row', '_slot_v': 'v'}", "SLOT_MAP = {'_slot_vc': 'v_row', '_slot_vr': 'v_col', '_slot_v': 'v'}\nLOGITS_SLOT_MAP = {v: k for k, v in SLOT_MAP.items()}")],
         needs='a checkpoint with factored second moments',
         breaks='Row and column statistics change places.',
         demo=DEMO % """
n = 'shared/embedding'
o = imp({n: f(2, 6), n + '_slot_vr': f(2), n + '_slot_vc': f(6), 'global_step': np.int64(3)})
b = 'state/param_states/token_embedder/embedding/'
assert np.array_equal(o[b + 'v_row'], f(2)) and np.array_equal(o[b + 'v_col'], f(6)), o"""),
    dict(id='c29-slots-v-only', property='C29',
         edits=[(I, """      elif state_leaf + '/v_row' in t5_data:
        updates[state_leaf + '/v'] = np.zeros((1,), np.float32)
""", """      elif state_leaf + '/v_row' in t5_data and '/layers_' in k:
        updates[state_leaf + '/v'] = np.zeros((1,), np.float32)
""")],
         needs='factored second moments of a parameter outside the layers',
         breaks='What Adafactor needs beyond the checkpoint is missing for embeddings and logits.',
         demo=DEMO % """
n = 'shared/embedding'
o = imp({n: f(2, 6), n + '_slot_vr': f(2), n + '_slot_vc': f(6), 'global_step': np.int64(3)})
assert np.array_equal(o['state/param_states/token_embedder/embedding/v'], [0.]), o"""),
    dict(id='c29-unmatched-slots', property='C29',
         edits=[(I, "      if not matched:\n        unmatched[k] = v\n", "      if not matched and '_slot_' not in k:\n        unmatched[k] = v\n")],
         needs='a checkpoint with the slots of another optimizer (momentum)',
         breaks='State that has no place here is dropped in silence.',
         demo=DEMO % """
for x in ('foo/bar', 'foo/bar_slot_m'):
  try:
    imp({x: f(2, 6), 'global_step': np.int64(3)}, {'state/step': ()})
  except ValueError:
    pass
  else:
    raise SystemExit('imported ' + x)"""),
    dict(id='c29-manager-axes', property='C29',
         edits=[(K, "          out_axis_resources=param_info.mesh_axes,\n", "          out_axis_resources=None,\n")],
         needs='a checkpoint manager of Orbax and a mesh with a model axis',
         breaks='Imported parameters are replicated instead of partitioned as the model asks.',
         demo='''
import boot; boot.setup(8)
import tempfile
import numpy as np, jax, jax.numpy as jnp, tensorflow as tf, flax
from t5x import adafactor, checkpoints as ck, partitioning, train_state as ts
from t5x.checkpoint_importer import CheckpointTranslator
t = CheckpointTranslator()
@t.add(r'w')
def w(opts, key, val):
  return 'target/w', val
@t.add(r'w_slot_v')
def slot(opts, key, val):
  return 'state/param_states/w/v', val
@t.add(r'global_step')
def s(opts, key, val):
  return 'state/step', val.astype(np.int32).get()
o = adafactor.Adafactor(.1, logical_factor_rules=adafactor.standard_logical_factor_rules())
p = partitioning.PjitPartitioner(num_partitions=2, logical_axis_rules=[('embed', 'model'), ('mlp', None)])
st = jax.eval_shape(lambda: ts.FlaxOptimTrainState.create(o, flax.core.freeze(
    {'params': {'w': jnp.zeros((8, 6))}, 'params_axes': {'w_axes': flax.linen.partitioning.AxisMetadata(('embed', 'mlp'))}})))
with tempfile.TemporaryDirectory() as d, p.mesh:
  v = np.arange(48, dtype=np.float32).reshape(8, 6)
  tf.raw_ops.SaveV2(prefix=d + '/m', tensor_names=['global_step', 'w', 'w_slot_v'], shape_and_slices=[''] * 3, tensors=[np.int64(3), v, v])
  m = ck.OrbaxCheckpointManagerInterface(d, st, p)
  o = m.restore_from_tf_checkpoint(d + '/m', translator=t)
  m.close()
  w = o.params['w']
  assert np.array_equal(w, v) and int(o.step) == 3
  assert {x.data.shape for x in w.addressable_shards} == {(8 // p.mesh.shape['model'], 6)} != {(8, 6)}, w.sharding
'''),
]
SEEDS = [s for s in SEEDS if s['breaks']]
