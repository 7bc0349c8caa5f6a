"""Planted bugs for C27."""
A = 't5x/adafactor.py'
DEMO = """
import boot; boot.setup()
import numpy as np, jax, jax.numpy as jnp
from t5x import adafactor as A
R, C, B, N = A.FactorDim.ROW, A.FactorDim.COLUMN, A.FactorDim.BATCH, A.FactorDim.NONE
g = np.random.default_rng(0)
def one(dims, shapes, steps=3, grads=None, **kw):
  \"\"\"The parameters after some steps.\"\"\"
  kw.setdefault('min_dim_size_to_factor', 1)
  fm = None if dims is None else A.HParamMap(tuple((k, v) for k, v in dims.items()))
  o = A.Adafactor(.5, factor_map=fm, **kw).create({k: jnp.asarray(v, jnp.float32) for k, v in shapes.items()})
  for i in range(steps):
    o = o.apply_gradient({k: jnp.asarray(v, jnp.float32) for k, v in grads[i].items()})
  return o
def val(*s):
  return g.normal(size=s)
def same(a, b):
  assert np.allclose(np.asarray(a), np.asarray(b), rtol=1e-4, atol=1e-6), (a, b)
%s
"""
SEEDS = [
    dict(id='c27-row-mean-over-all', property='C27',
         edits=[(A, "      row_col_mean = jnp.mean(new_v_row, axis=reduced_d1, keepdims=True)", "      row_col_mean = jnp.mean(new_v_row, keepdims=True)")],
         needs='a factored parameter with a batch dimension',
         breaks='The update of one layer of a scanned stack depends on the gradients of the others.',
         demo=DEMO % """x, gs = val(2, 3, 4), [val(2, 3, 4) * np.array([1., 100.])[:, None, None] for _ in range(3)]
o = one({'w': (B, R, C)}, {'w': x}, grads=[{'w': v} for v in gs])
for k in range(2):
  p = one({'w': (R, C)}, {'w': x[k]}, grads=[{'w': v[k]} for v in gs])
  same(o.target['w'][k], p.target['w'])"""),
    dict(id='c27-nan-forgets-momentum', property='C27',
         edits=[(A, "      updates['m'] = jnp.where(jnp.isnan(updates['m']), state.m, updates['m'])", "      updates['m'] = jnp.nan_to_num(updates['m'])")],
         needs='momentum, skip_nan_updates, and a gradient that is not a number after an ordinary one',
         breaks='The momentum is lost at a step that should leave it alone.',
         demo=DEMO % """x = val(4)
bad = np.full(4, np.nan)
a = val(4)
o = one(None, {'w': x}, steps=2, grads=[{'w': a}, {'w': bad}], beta1=.9, skip_nan_updates=True)
p = one(None, {'w': x}, steps=1, grads=[{'w': a}], beta1=.9)
same(o.target['w'], p.target['w'])
same(o.state.param_states['w'].m, p.state.param_states['w'].m)"""),
    dict(id='c27-states-by-position', property='C27',
         edits=[(A, "    states_flat = [states_flat[k] for k in params_paths]", "    states_flat = list(states_flat.values())")],
         needs='optimizer states whose dict has another order than the parameters, e.g. after a jitted step',
         breaks='Parameters are updated with the second moments of others.',
         demo=DEMO % """x = {'b': val(3), 'a': val(3)}
gs = [{'b': val(3), 'a': 100 * val(3)} for _ in range(2)]
o = one(None, x, steps=1, grads=gs)
ps = o.state.param_states
o = o.replace(state=o.state.replace(param_states={'a': ps['a'], 'b': ps['b']}))
o = o.apply_gradient({k: jnp.asarray(v, jnp.float32) for k, v in gs[1].items()})
p = one(None, x, steps=2, grads=gs)
same(o.target['a'], p.target['a']); same(o.target['b'], p.target['b'])"""),
    dict(id='c27-norm-of-vectors', property='C27',
         edits=[(A, "      squared_l2_norms = [jnp.sum(jnp.square(g)) for g in grads_flat]", "      squared_l2_norms = [jnp.sum(jnp.square(g)) for g in grads_flat if g.ndim]")],
         needs='global norm clipping, a scalar parameter with a large gradient',
         breaks='The global norm leaves out scalar parameters: their gradients are hardly clipped.',
         demo=DEMO % """x = {'w': val(3), 's': np.array(1.)}
gs = [{'w': np.array([3., 0., 0.]), 's': np.array(4.)}]
o = one(None, x, steps=1, grads=gs, global_norm_clip_threshold=.5, epsilon1=.25)
p = one(None, x, steps=1, grads=[{k: v * .1 for k, v in gs[0].items()}], epsilon1=.25)
same(o.target['w'], p.target['w']); same(o.target['s'], p.target['s'])"""),
    dict(id='c27-rms-of-all-layers', property='C27',
         edits=[(A, "          jnp.mean(param * param, axis=averaging_dims, keepdims=True)", "          jnp.mean(param * param, keepdims=True)")],
         needs='a batch dimension and layers of different scale',
         breaks='The step of one layer of a scanned stack depends on the size of the others.',
         demo=DEMO % """x, gs = val(2, 3, 4) * np.array([1., 100.])[:, None, None], [val(2, 3, 4) for _ in range(3)]
o = one({'w': (B, R, C)}, {'w': x}, grads=[{'w': v} for v in gs])
for k in range(2):
  p = one({'w': (R, C)}, {'w': x[k]}, grads=[{'w': v[k]} for v in gs])
  same(o.target['w'][k], p.target['w'])"""),
    dict(id='c27-small-dim-factored', property='C27',
         edits=[(A, "    if shape[sorted_dims[-2]] < self.hyper_params.min_dim_size_to_factor:", "    if shape[sorted_dims[-1]] < self.hyper_params.min_dim_size_to_factor:")],
         needs='a matrix with one dimension below and one above min_dim_size_to_factor',
         breaks='A matrix too small to be factored is factored: its optimizer state has another shape.',
         demo=DEMO % """o = one(None, {'w': val(2, 9)}, steps=0, grads=[], min_dim_size_to_factor=4)
assert o.state.param_states['w'].v.shape == (2, 9), o.state"""),
]
