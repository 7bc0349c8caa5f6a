"""Planted bugs for C21."""
O, T = 't5x/optimizers.py', 't5x/train_state.py'
DEMO = """
import boot; boot.setup()
import jax, jax.numpy as jnp, optax
from flax.core import freeze, unfreeze
from flax.linen import partitioning as fp
from t5x import optimizers, train_state as ts, adafactor
def variables(mutables=True):
    v = {'params': {'a': {'w': jnp.ones((4, 2)), 'b': jnp.ones((2,))}},
         'params_axes': {'a': {'w_axes': fp.AxisMetadata(names=('embed', 'mlp')), 'b_axes': fp.AxisMetadata(names=('mlp',))}}}
    if mutables:
        v['stats'] = {'mean': jnp.ones((3,))}
        v['stats_axes'] = {'mean_axes': fp.AxisMetadata(names=('embed',))}
    return freeze(v)
%s
"""
SEEDS = [
    dict(id='c21-step-drops-mutables', property='C21',
         edits=[(T, "    state_dict = self.state_dict()\n    state_dict['state']['step'] = step",
                 "    state_dict = self._optimizer.state_dict()\n    state_dict['state']['step'] = step")],
         needs='a model with flax mutables whose step is replaced',
         breaks='Replacing the step forgets the flax mutables.',
         demo=DEMO % """s = ts.FlaxOptimTrainState.create(optimizers.adam(.1), variables())
r = s.replace_step(jnp.asarray(7))
assert int(r.step) == 7 and r.flax_mutables['stats']['mean'].shape == (3,), r.flax_mutables"""),
    dict(id='c21-restore-keeps-mutables', property='C21',
         edits=[(T, """        if 'flax_mutables' in state_dict
        else EMPTY_DICT,
    )

  def as_logical_axes(self) -> 'FlaxOptimTrainState':""", """        if 'flax_mutables' in state_dict
        else self.flax_mutables,
    )

  def as_logical_axes(self) -> 'FlaxOptimTrainState':""")],
         needs='restoring a dictionary of a state without mutables into a state that has some',
         breaks='The restored state keeps the mutables of the template.',
         demo=DEMO % """s = ts.FlaxOptimTrainState.create(optimizers.adam(.1), variables())
d = s.replace_flax_mutables(freeze({})).state_dict()
assert not s.restore_state(d).flax_mutables"""),
    dict(id='c21-dict-aliases-params', property='C21',
         edits=[(O, """    return to_state_dict({
        'target': to_state_dict(target),
        'state': state_dict,
    })""", """    return to_state_dict({
        'target': getattr(target, '_dict', None) or to_state_dict(target),
        'state': state_dict,
    })""")],
         needs='editing a state dictionary in place (as assignment maps do) while the state is still used',
         breaks='An edit of the dictionary changes the frozen parameters of the state.',
         skip=True, demo=DEMO % """"""),
    dict(id='c21-inference-dict-aliases', property='C21',
         edits=[(T, """        'target': flax.core.unfreeze(self.params),
        'state': {'step': self.step},
    }
    if self.flax_mutables:
      state_dict['flax_mutables'] = flax.core.unfreeze(self.flax_mutables)""",
                 """        'target': flax.core.unfreeze(self.params),
        'state': {'step': self.step},
    }
    if self.flax_mutables:
      state_dict['flax_mutables'] = {
          k: dict(v) if hasattr(v, 'items') else v
          for k, v in getattr(
              self.flax_mutables, '_dict', self.flax_mutables
          ).items()
      }""")],
         needs='nested mutables of an inference state whose dictionary is edited in place',
         breaks='The edit of the dictionary reaches the state it came from.',
         demo=DEMO % """v = unfreeze(variables())
v['stats'] = {'deep': {'mean': jnp.ones((3,))}}
v['stats_axes'] = {'deep': {'mean_axes': fp.AxisMetadata(names=('embed',))}}
s = ts.InferenceState.create(freeze(v))
d = s.state_dict()
d['flax_mutables']['stats']['deep']['mean'] = jnp.zeros((3,))
assert float(s.flax_mutables['stats']['deep']['mean'].sum()) == 3"""),
    dict(id='c21-missing-is-empty', property='C21',
         edits=[(O, """      if v != traverse_util.empty_node:
        raise ValueError(""", """      if v is None:
        raise ValueError(""")],
         needs='(not observable: from_state_dict would fail on its own)', skip=True,
         breaks='', demo=''),
    dict(id='c21-masked-axes', property='C21',
         edits=[(O, """        lambda x, y: x if not isinstance(y, optax.MaskedNode) else y,
        params_axes,
        optax_params,""", """        lambda x, y: x if not isinstance(y, optax.MaskedNode) else None,
        params_axes,
        optax_params,""")],
         needs='an optimizer that masks some parameters (weight decay or multi_transform)',
         breaks='The axes tree has leaves where the state has none.',
         demo=DEMO % """mask = lambda p: jax.tree.map(lambda x: x.ndim == 2, p)
s = ts.FlaxOptimTrainState.create(optimizers.chain([optax.masked(optax.trace(.9), mask)]), variables())
leaf = lambda v: v is None or isinstance(v, jax.sharding.PartitionSpec)
n = lambda t: len(jax.tree.leaves(t.param_states, is_leaf=leaf))
assert n(s) == n(s.as_logical_axes()), s.as_logical_axes()"""),
    dict(id='c21-adafactor-v-axes', property='C21',
         edits=[('t5x/adafactor.py', "          v=logical_axes if adafactor_leaf['v'].shape != (1,) else None,",
                 "          v=logical_axes if adafactor_leaf['v_row'].shape == (1,) and len(logical_axes) < 2 else None,")],
         needs='an Adafactor that does not factor a matrix',
         breaks='Unfactored second moments of matrices lose their axes.',
         demo=DEMO % """s = ts.FlaxOptimTrainState.create(adafactor.Adafactor(.1, factored=False), variables())
a = s.as_logical_axes()
assert tuple(a.param_states['a']['w'].v) == ('embed', 'mlp'), a.param_states"""),
    dict(id='c21-multi-steps-axes', property='C21',
         edits=[(O, """          inner_opt_state=OptaxStatePartitionRules.derive_optax_logical_axes(  # pylint: disable=line-too-long
              state.inner_opt_state, params_axes
          ),""", """          inner_opt_state=jax.tree.map(lambda x: None, state.inner_opt_state),""")],
         needs='an optimizer wrapped in MultiSteps',
         breaks='The inner optimizer state loses its logical axes.',
         demo=DEMO % """o = optimizers.OptaxWrapper(optax.MultiSteps(optax.adam(.1), 2).gradient_transformation())
s = ts.FlaxOptimTrainState.create(o, variables())
a = s.as_logical_axes()
assert tuple(a.param_states.inner_opt_state[0].mu['a']['w']) == ('embed', 'mlp'), a.param_states"""),
]
SEEDS = [s for s in SEEDS if not s.pop('skip', False)]
