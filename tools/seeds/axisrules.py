"""Planted bugs for C15."""
P, U = 't5x/partitioning.py', 't5x/utils.py'
DEMO = """
import boot; boot.setup()
import flax
import jax
import jax.numpy as jnp
from flax.linen import partitioning as fp
from t5x import partitioning, train_state, utils
S = partitioning.PartitionSpec
def variables(**names):
  return flax.core.freeze(dict(
      params={k: jax.ShapeDtypeStruct((2,) * len(v), jnp.float32) for k, v in names.items()},
      params_axes={k + '_axes': fp.AxisMetadata(names=v) for k, v in names.items()}))
def specs(rules, **names):
  p = partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=rules)
  return dict(p.get_mesh_axes(train_state.InferenceState.create(variables(**names))).params)
%s
"""
SEEDS = [
    dict(id='c15-one-rule-per-name', property='C15',
         edits=[(P, "    self._logical_axis_rules = tuple(logical_axis_rules)\n",
                 "    # Later rules for a name are fallbacks, but there is one entry per name.\n    self._logical_axis_rules = tuple(\n        {k: v for k, v in reversed(tuple(logical_axis_rules))}.items()\n    )[::-1]\n")],
         needs='several rules for one name, the first of which is not applicable',
         breaks='The fallback rule is not applied: the dimension is replicated.',
         demo=DEMO % """r = specs(partitioning.standard_logical_axis_rules(2, 2), k=('embed', 'mlp'))
assert r['k'] == S('data', 'model'), r"""),
    dict(id='c15-regex-prefix', property='C15',
         edits=[(U, "      if pattern.fullmatch(key):\n", "      if pattern.match(key):\n")],
         needs='a pattern that matches the beginning of the path of another parameter',
         breaks='Axis names of parameters whose path is only partly matched are replaced.',
         demo=DEMO % """v = utils.override_params_axes_names(variables(wi=('embed', 'mlp'), wi_0=('embed', 'mlp')), [('wi', ('a', 'b'))])
assert v['params_axes']['wi_axes'].names == ('a', 'b')
assert v['params_axes']['wi_0_axes'].names == ('embed', 'mlp'), v['params_axes']"""),
    dict(id='c15-cached-by-set', property='C15',
         edits=[(P, "    flat_mesh_axes = {\n        k: _logical_to_mesh_axes(k, v) for k, v in flat_logical_axes.items()\n    }\n",
                 "    # Most parameters have one of a few sets of axes.\n    seen = {}\n    flat_mesh_axes = {}\n    for k, v in flat_logical_axes.items():\n      if not isinstance(v, PartitionSpec):\n        flat_mesh_axes[k] = _logical_to_mesh_axes(k, v)\n        continue\n      key = tuple(sorted(str(a) for a in v))\n      if key not in seen:\n        seen[key] = _logical_to_mesh_axes(k, v)\n      flat_mesh_axes[k] = seen[key]\n")],
         needs='two parameters with the same axes in another order',
         breaks='The second parameter is sharded along the wrong dimension.',
         demo=DEMO % """r = specs([('embed', None), ('mlp', 'model')], wi=('embed', 'mlp'), wo=('mlp', 'embed'))
assert r['wi'] == S(None, 'model') and r['wo'] == S('model', None), r"""),
    dict(id='c15-override-rank', property='C15',
         edits=[(U, "    if param.ndim != len(override):\n", "    if param.ndim < len(override):\n")],
         needs='an override with fewer names than the parameter has dimensions',
         breaks='The override is accepted and the last dimensions have no names.',
         demo=DEMO % """try:
  utils.override_params_axes_names(variables(wi=('embed', 'mlp')), [('wi', ('a',))])
except ValueError:
  raise SystemExit(0)
raise SystemExit('accepted')"""),
    dict(id='c15-extra-first', property='C15',
         edits=[(P, "  rules.extend(replicated_rules)\n\n  if additional_rules:\n    rules.extend(additional_rules)\n",
                 "  if additional_rules:\n    rules.extend(additional_rules)\n\n  rules.extend(replicated_rules)\n")],
         needs='additional rules for a name that the standard rules replicate',
         breaks='An additional rule comes before the standard one for its name.',
         demo=DEMO % """r = specs(partitioning.standard_logical_axis_rules(1, 1, [('length', 'data')]), k=('length', 'mlp'))
assert r['k'] == S(None, 'model'), r"""),
]
