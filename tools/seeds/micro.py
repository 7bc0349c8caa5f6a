"""Planted bugs for C09."""
T = 't5x/trainer.py'
DEMO = """
import boot; boot.setup()
import jax, jax.numpy as jnp, numpy as np
from t5x import trainer, metrics
class Model:
    def loss_fn(self, params, batch, rng, flax_mutables=None):
        w = batch['w'].astype(jnp.float32)
        loss = jnp.sum(w * params['seen'][batch['id']])
        m = {'w': metrics.Sum.from_model_output(w.sum())}
        if flax_mutables is None:
            return loss, m
        return loss, (m, {'n': flax_mutables['n'] + jnp.sum(batch['id'])})
class State:
    params = {'seen': jnp.zeros(4)}
    flax_mutables = None
batch = {'x': np.zeros((8, 2)), 'id': np.arange(8) %% 4, 'w': np.asarray([1, 2, 3, 4, 50, 60, 70, 80])}
from jax.sharding import Mesh, PartitionSpec as P
def grads(micro, mutables=None):
    s = State(); s.flax_mutables = mutables
    with Mesh(np.asarray(jax.devices()[:1]), ('data',)):
        return jax.jit(lambda b: trainer.accumulate_grads_microbatched(Model(), s, b, jax.random.PRNGKey(0), micro))(batch)
%s
"""
SEEDS = [
    dict(id='c09-flat-features', property='C09',
         edits=[(T, "      starts = {k: [offset] + [0] * (b.ndim - 1) for k, b in batch.items()}",
                 "      starts = {\n          k: [offset] + [0] * (b.ndim - 1) if b.ndim > 1 else [microbatch_size]\n          for k, b in batch.items()\n      }")],
         needs='a feature without a length dimension and more than one micro-batch',
         breaks='The same slice of such a feature is used for every micro-batch.',
         demo=DEMO % """g, m, _ = grads(4)
assert g['seen'].tolist() == [51, 62, 73, 84], g"""),
    dict(id='c09-mutables-restart', property='C09',
         edits=[(T, "            train_state.params, mbatch, sub_dropout_rng, flax_mutables\n",
                 "            train_state.params,\n            mbatch,\n            sub_dropout_rng,\n            initial_flax_mutables,\n")],
         needs='mutable variables and more than one micro-batch',
         breaks='Mutable variables keep only what the last micro-batch changed.',
         demo=DEMO % """g, m, v = grads(4, {'n': jnp.zeros((), jnp.int32)})
assert int(v['n']) == 12, v"""),
    dict(id='c09-metrics-pairs', property='C09',
         edits=[(T, "          loop_cnt == 0,\n          lambda _: metrics,", "          loop_cnt < num_microbatches // 2,\n          lambda _: metrics,")],
         needs='at least four micro-batches',
         breaks='Metrics of the first micro-batches are dropped.',
         demo=DEMO % """g, m, v = grads(2)
assert float(m['w'].total) == 270, m
g, m, v = grads(4)
assert float(m['w'].total) == 270, m"""),
    dict(id='c09-coarse-sum', property='C09',
         edits=[(T, "    accum_dtype = jnp.float32\n", "    accum_dtype = jnp.bfloat16\n"),
                (T, "      grad_accum = jax.tree_util.tree_map(jnp.add, grad_accum, grad)",
                 "      grad_accum = jax.tree_util.tree_map(\n          lambda a, g: (a + g).astype(accum_dtype), grad_accum, grad\n      )")],
         needs='gradients whose sum over micro-batches needs more than eight bits',
         breaks='The accumulated gradient is rounded to bfloat16.',
         demo=DEMO % """batch['w'] = np.asarray([256, 1, 1, 1, 1, 1, 1, 1])
g, m, _ = grads(2)
assert g['seen'].astype(jnp.float32).tolist() == [257, 2, 2, 2], g"""),
]
