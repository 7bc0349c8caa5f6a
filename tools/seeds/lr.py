"""Planted bugs for C24."""
U = 't5x/utils.py'
DEMO = """
import boot; boot.setup()
import jax.numpy as jnp
from t5x import utils
def rates(steps, *a, **kw):
    fn = utils.create_learning_rate_scheduler(*a, **kw)
    return [round(float(fn(jnp.asarray(s))), 5) for s in steps]
%s
"""
SEEDS = [
    dict(id='c24-one-cycle', property='C24',
         edits=[(U, "            0.0, 0.5 * (1.0 + jnp.cos(jnp.pi * (progress % 1.0)))", "            0.0, 0.5 * (1.0 + jnp.cos(jnp.pi * jnp.minimum(progress, 1.0)))")],
         needs='training for more than one cosine cycle',
         breaks='The rate stays at its minimum after the first cycle.',
         demo=DEMO % """v = rates([0, 6, 12, 18], 'constant * cosine_decay', 1.0, warmup_steps=0, steps_per_cycle=12)
assert v == [1.0, 0.5, 1.0, 0.5], v"""),
    dict(id='c24-before-offset', property='C24',
         edits=[(U, "    step = jnp.maximum(0, step - step_offset)", "    step = jnp.abs(step - step_offset)")],
         needs='a step before the offset of the schedule',
         breaks='Steps before the offset get the rate of a later step.',
         demo=DEMO % """v = rates([5, 10, 12], 'constant * linear_warmup', 1.0, warmup_steps=10, step_offset=10, min_learning_rate=0.0)
assert v == [0, 0, 0.2], v"""),
    dict(id='c24-decay-after-warmup', property='C24',
         edits=[(U, "        ret *= decay_factor ** (step // steps_per_decay)",
                 "        ret *= decay_factor ** (\n            jnp.maximum(0, step - 1) // steps_per_decay\n        )")],
         needs='a step at a decay boundary',
         breaks='The rate decays one step late.',
         demo=DEMO % """v = rates([9, 10, 11], 'constant * decay_every', 1.0, steps_per_decay=10)
assert v == [1, .5, .5], v"""),
]
