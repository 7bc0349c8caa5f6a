"""Planted bugs for C23."""
O = 't5x/optimizers.py'
DEMO = """
import boot; boot.setup()
import jax, jax.numpy as jnp, numpy as np
from flax.core import freeze
from flax import traverse_util as tu, struct
from t5x import optimizers, adafactor
@struct.dataclass
class HP:
    learning_rate: float = None
class Sgd(optimizers.OptimizerDef):
    def __init__(self, lr): super().__init__(HP(lr))
    def init_state(self, p): return optimizers.OptimizerState(jnp.zeros((), jnp.int32), jax.tree.map(jnp.zeros_like, p))
    def apply_gradient(self, hp, p, s, g):
        return (jax.tree.map(lambda x, y: x - hp.learning_rate * y, p, g),
                optimizers.OptimizerState(s.step + 1, jax.tree.map(lambda a: a + 1 + s.step, s.param_states)))
def has(x): return tu.ModelParamTraversal(lambda p, _: x in p.split('/'))
P = freeze({'a': {'w': jnp.zeros(2), 'b': jnp.zeros(2)}, 'c': {'w': jnp.zeros(2), 'k': jnp.zeros(2)}})
ones = jax.tree.map(jnp.ones_like, P)
val = lambda o: {k: float(v[0]) for k, v in tu.flatten_dict(o.target.unfreeze(), sep='/').items()}
%s
"""
SEEDS = [
    dict(id='c23-overlap-last-leaf', property='C23',
         edits=[(O, "        overlap |= len(match._indices) > 1", "        overlap = len(match._indices) > 1")],
         needs='selectors that overlap on some parameter, the last one matched not being it',
         breaks='Overlapping selectors are accepted and a parameter is updated by several optimizers.',
         demo=DEMO % """o = optimizers.MultiOptimizer([(has('a'), Sgd(1.)), (tu.ModelParamTraversal(lambda p, _: p.endswith('w')), Sgd(2.))])
try:
    o.create(P)
except ValueError:
    pass
else:
    raise SystemExit('overlap accepted')"""),
    dict(id='c23-rate-set-wins', property='C23',
         edits=[(O, "      hps = [hp.replace(**hyper_param_overrides) for hp in hps]",
                 "      hps = [hps[0].replace(**hyper_param_overrides)] + [\n          hp.replace(**hyper_param_overrides)\n          if type(hp) is type(hps[0])\n          else hp\n          for hp in hps[1:]\n      ]\n      hps = [hps[0]] * len(hps) if len({type(h) for h in hps}) == 1 else hps")],
         needs='optimizers of the same kind with different hyper-parameters and an overridden learning rate',
         breaks='All optimizers take the hyper-parameters of the first.',
         demo=DEMO % """@struct.dataclass
class HP2:
    learning_rate: float = None
    scale: float = 1.0
class S2(Sgd):
    def __init__(self, scale): optimizers.OptimizerDef.__init__(self, HP2(0.0, scale))
    def apply_gradient(self, hp, p, s, g):
        return Sgd.apply_gradient(self, HP(hp.learning_rate * hp.scale), p, s, g)
o = optimizers.MultiOptimizer([(has('a'), S2(1.)), (has('c'), S2(3.))]).create(P)
v = val(o.apply_gradient(ones, learning_rate=2.))
assert v == {'a/b': -2, 'a/w': -2, 'c/k': -6, 'c/w': -6}, v"""),
    dict(id='c23-substep', property='C23',
         edits=[(O, "    return new_params, OptimizerState(state.step + 1, new_param_states)\n\n  def update_hyper_params",
                 "    return new_params, OptimizerState(new_ss.step, new_param_states)\n\n  def update_hyper_params"),
                (O, "      prev_ss = OptimizerState(state.step, ss)\n",
                 "      prev_ss = OptimizerState(\n          state.step if jax.tree.leaves(ps) else state.step - 1, ss\n      )\n")],
         needs='a last optimizer whose selector matches nothing',
         breaks='The step of the state does not advance.',
         demo=DEMO % """o = optimizers.MultiOptimizer([(has('a'), Sgd(1.)), (has('nowhere'), Sgd(2.))]).create(P)
for _ in range(2): o = o.apply_gradient(ones)
assert int(o.state.step) == 2, o.state.step"""),
    dict(id='c23-prefix-update', property='C23',
         edits=[(O, "    flat_tree[path] = leaf\n  nested_d", "    flat_tree[path] = leaf\n    for other in [k for k in flat_tree if k.startswith(path + '_')]:\n      flat_tree.setdefault(other, leaf)\n      if isinstance(flat_tree[other], _Marker):\n        flat_tree[other] = leaf\n  nested_d")],
         needs='an unmatched parameter whose name extends the name of a matched one',
         breaks='The unmatched parameter gets the state of the matched one.',
         demo=DEMO % """Q = freeze({'w': jnp.zeros(2), 'w_old': jnp.zeros(2)})
o = optimizers.MultiOptimizer([(has('w'), Sgd(1.))]).create(Q)
assert o.state.param_states['w_old'] is None, o.state.param_states"""),
    dict(id='c23-unmatched-state', property='C23',
         edits=[(O, """    # Update state to None when param is not optimized by any sub optimizer.
    new_param_states = jax.tree.map(
        lambda x: (None if isinstance(x, _Marker) else x), new_param_states
    )""", """    # Update state to None when param is not optimized by any sub optimizer.
    new_param_states = jax.tree.map(
        lambda x, p: (jnp.zeros_like(p) if isinstance(x, _Marker) else x),
        new_param_states,
        jax.tree.map(lambda p: p, new_params),
    ) if any(
        isinstance(x, _Marker) and p.ndim == 0
        for x, p in zip(jax.tree.leaves(new_param_states), jax.tree.leaves(new_params))
    ) else jax.tree.map(
        lambda x: (None if isinstance(x, _Marker) else x), new_param_states
    )""")], skip=True, needs='', breaks='', demo=''),
    dict(id='c23-axes-order', property='C23',
         edits=[(O, "        ps = _subtree_from_traversal(focus, param_logical_axes)\n        ss =",
                 "        ps = _subtree_from_traversal(self.traversals[0], param_logical_axes) if hasattr(opt_def, 'hyper_params') and opt_def is self.sub_optimizers[0] else _subtree_from_traversal(focus, jax.tree.map(lambda a: jax.sharding.PartitionSpec(*sorted(a, key=str)), param_logical_axes))\n        ss =")],
         needs='axes of the second optimizer that are not in alphabetical order',
         breaks='The state of later optimizers is partitioned along wrong axes.',
         demo=DEMO % """A = jax.sharding.PartitionSpec
Q = freeze({'a': {'w': jnp.zeros((2, 3))}, 'c': {'w': jnp.zeros((2, 3))}})
o = optimizers.MultiOptimizer([(has('a'), adafactor.Adafactor(.1, beta1=.9)), (has('c'), adafactor.Adafactor(.1, beta1=.9))])
x = o.derive_logical_axes(o.create(Q), freeze({'a': {'w': A('mlp', 'embed')}, 'c': {'w': A('mlp', 'embed')}}))
assert tuple(x.state.param_states['c']['w'].m) == ('mlp', 'embed'), x.state"""),
]
SEEDS = [s for s in SEEDS if not s.pop('skip', False)]
