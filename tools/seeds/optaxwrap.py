"""Planted bugs for C30."""
O, T = 't5x/optimizers.py', 't5x/train_state.py'
DEMO = """
import boot; boot.setup()
import jax, jax.numpy as jnp, optax, numpy as np
from flax.core import freeze, unfreeze
from flax import traverse_util as tu
from flax.linen import partitioning as fp
from t5x import optimizers, train_state as ts
def make(opt):
    v = {'params': {'a': {'w': jnp.ones((4, 2)), 'b': jnp.ones((2,))}},
         'params_axes': {'a': {'w_axes': fp.AxisMetadata(names=('embed', 'mlp')), 'b_axes': fp.AxisMetadata(names=('mlp',))}}}
    return ts.FlaxOptimTrainState.create(optimizers.OptaxWrapper(opt), freeze(v))
def grads(x):
    return freeze({'a': {'w': jnp.full((4, 2), x), 'b': jnp.full((2,), x)}})
def axes(s):
    d = unfreeze(s.as_logical_axes().state_dict())
    return tu.flatten_dict(d['state']['param_states'], sep='/')
mask = lambda t: jax.tree.map(lambda x: x.ndim == 2, t)
kinds = lambda t: jax.tree.map(lambda x: 'x' if x.ndim == 2 else 'y', t)
%s
"""
SEEDS = [
    dict(id='c30-missing-kept', property='C30',
         edits=[(O, """      if v != traverse_util.empty_node:
        raise""", """      if jax.tree.leaves(v) and v is not traverse_util.empty_node and getattr(v, 'ndim', 0) > 1:
        raise""")],
         needs='a dictionary that lacks a vector or a counter of the state of the optimizer',
         breaks='What a dictionary lacks silently keeps the value it had.',
         demo=DEMO % """s = make(optax.adam(.1)).apply_gradient(grads(1.), learning_rate=.1)
for k in ('state/param_states/0/count', 'state/param_states/0/mu/a/b', 'state/param_states/0/mu/a/w'):
    d = tu.flatten_dict(unfreeze(s.state_dict()), sep='/')
    del d[k]
    try:
        s.restore_state(tu.unflatten_dict(d, sep='/'))
    except (ValueError, KeyError):
        continue
    raise SystemExit('%s may be missing' % k)"""),
    dict(id='c30-conditional-replicated', property='C30',
         edits=[(O, """          inner_state=OptaxStatePartitionRules.derive_optax_logical_axes(
              state.inner_state, params_axes
          ),
          step=None,""", """          inner_state=jax.tree.map(lambda x: None, state.inner_state),
          step=None,""")],
         needs='an optimizer under optax.conditionally_transform',
         breaks='The state of a conditional optimizer is replicated.',
         demo=DEMO % """a = axes(make(optax.conditionally_transform(optax.trace(.9), lambda n: n > 1)))
assert tuple(a['inner_state/trace/a/w']) == ('embed', 'mlp'), a"""),
    dict(id='c30-restore-by-position', property='C30',
         edits=[(O, """    # Restore state from the enhanced state dict.
    opt_state = from_state_dict(
        opt_state,
        traverse_util.unflatten_dict(flat_src_opt_state_dict, sep='/'),
    )""", """    # Restore state from the enhanced state dict.
    leaves = [
        v for v in flat_src_opt_state_dict.values()
        if v is not traverse_util.empty_node
    ]
    names = [
        k for k, v in flat_ref_opt_state_dict.items()
        if v is not traverse_util.empty_node
    ]
    flat_src_opt_state_dict.update(zip(names, leaves))
    opt_state = from_state_dict(
        opt_state,
        traverse_util.unflatten_dict(flat_src_opt_state_dict, sep='/'),
    )""")],
         needs='a dictionary whose entries are in another order than those of the state',
         breaks='Values are given to the wrong places of the state.',
         demo=DEMO % """s = make(optax.adam(.1)).apply_gradient(grads(1.), learning_rate=.1)
def turned(d):
    return {k: turned(d[k]) for k in reversed(list(d))} if isinstance(d, dict) else d
r = s.restore_state(turned(unfreeze(s.state_dict())))
for x, y in zip(jax.tree.leaves(r.param_states), jax.tree.leaves(s.param_states)):
    assert np.shape(x) == np.shape(y) and np.allclose(x, y), (x, y)"""),
    dict(id='c30-step-never-back', property='C30',
         edits=[(O, """        traverse_util.unflatten_dict(flat_src_opt_state_dict, sep='/'),
    )
    return opt_target, opt_state""", """        traverse_util.unflatten_dict(flat_src_opt_state_dict, sep='/'),
    )
    if isinstance(old_step, jax.Array) and opt_state.step is not None:
      opt_state = opt_state.replace(step=jax.numpy.maximum(old_step, opt_state.step))
    return opt_target, opt_state"""),
                (O, """    opt_target = from_state_dict(opt_target, state_dict['target'])

    # Get all""", """    opt_target = from_state_dict(opt_target, state_dict['target'])
    old_step = opt_state.step

    # Get all""")],
         needs='a restore into a state that has trained further than the dictionary',
         breaks='The step is not restored.',
         demo=DEMO % """s = make(optax.adam(.1))
s = jax.jit(lambda s: s.apply_gradient(grads(1.), learning_rate=.1))(s)
d = s.state_dict()
for _ in range(2):
    s = jax.jit(lambda s: s.apply_gradient(grads(1.), learning_rate=.1))(s)
assert int(s.restore_state(d).step) == 1"""),
    dict(id='c30-zero-updates-skip', property='C30',
         edits=[(O, """    new_params = optax.apply_updates(params, updates)
    return new_params, OptimizerState(
        step=state.step + 1, param_states=new_optax_state
    )""", """    new_params = optax.apply_updates(params, updates)
    moved = sum(jax.numpy.any(u != 0) for u in jax.tree.leaves(updates)) > 0
    return new_params, OptimizerState(
        step=state.step + jax.numpy.where(moved, 1, 0),
        param_states=new_optax_state,
    )""")],
         needs='a training step without any update (accumulation of gradients, gradients of zero)',
         breaks='Steps that only accumulate gradients are not counted.',
         demo=DEMO % """s = make(optax.MultiSteps(optax.sgd(.1), 2).gradient_transformation())
for n in range(1, 5):
    s = s.apply_gradient(grads(1.), learning_rate=.1)
    assert int(s.step) == n, (n, s.step)"""),
    dict(id='c30-multi-by-first-label', property='C30',
         edits=[(O, """              inner_states=OptaxStatePartitionRules.derive_optax_logical_axes(
                  state.inner_states, params_axes
              )
          )""", """              inner_states={
                  k: OptaxStatePartitionRules.derive_optax_logical_axes(
                      v, params_axes
                  )
                  if k == min(state.inner_states)
                  else jax.tree.map(lambda x: None, v)
                  for k, v in state.inner_states.items()
              }
          )""")],
         needs='optax.multi_transform whose second label has moments',
         breaks='The moments of all optimizers but the first are replicated.',
         demo=DEMO % """a = axes(make(optax.multi_transform({'x': optax.trace(.9), 'y': optax.trace(.5)}, kinds)))
assert tuple(a['inner_states/x/inner_state/trace/a/w']) == ('embed', 'mlp'), a
assert tuple(a['inner_states/y/inner_state/trace/a/b']) == ('mlp',), a"""),
    dict(id='c30-bad-step-lost', property='C30',
         edits=[(O, """    updates, new_optax_state = self.optax_optimizer.update(
        grads, state.param_states, params
    )""", """    grads = jax.tree.map(jax.numpy.nan_to_num, grads)
    updates, new_optax_state = self.optax_optimizer.update(
        grads, state.param_states, params
    )""")],
         needs='a gradient that is not finite, under optax.apply_if_finite',
         breaks='The update that should have been rejected is applied.',
         demo=DEMO % """s = make(optax.apply_if_finite(optax.sgd(1.), 3))
s = s.apply_gradient(grads(jnp.inf), learning_rate=.1)
assert np.all(np.asarray(s.params['a']['w']) == 1), s.params"""),
]
