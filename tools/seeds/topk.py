"""Planted bugs for C18."""
B = 't5x/binary_search.py'
DEMO = """
import boot; boot.setup()
import numpy as np
import jax
import jax.numpy as jnp
from t5x import binary_search as bs
%s
"""
SEEDS = [
    dict(id='c18-huge-as-nonfinite', property='C18',
         edits=[(B, "  exponent_bits = jnp.int32((1 << 31) - (1 << (31 - 8)))", "  exponent_bits = jnp.int32((1 << 31) - (1 << (31 - 7)))")],
         needs='values near the largest finite numbers',
         breaks='The search skips the largest finite floats.',
         demo=DEMO % """for t in (2.5e38, 3.4028235e38, -2.5e38):
  z = bs.float32_bsearch((), lambda x: x > jnp.float32(t))
  assert np.float32(z) == np.float32(t), (t, z)"""),
    dict(id='c18-p-clamped', property='C18',
         edits=[(B, "    return probability_mass < p\n", "    return probability_mass < jnp.minimum(p, 0.999)\n")],
         needs='p above 0.999 and tokens that rare',
         breaks='Top-p drops rare tokens although p covers them.',
         demo=DEMO % """x = jnp.log(jnp.asarray([[5000., 3., 1.]], jnp.float32))
y = np.asarray(bs.topp_mask(x, 1.0, -1e7))
assert (y > -1e6).all(), y"""),
    dict(id='c18-small-count', property='C18',
         edits=[(B, "    count_gt = jnp.sum(x_for_loop > threshold, axis=reduce_axis)",
                 "    count_gt = jnp.sum(\n        x_for_loop > threshold, axis=reduce_axis, dtype=jnp.uint8\n    )")],
         needs='a vocabulary of more than 255 tokens',
         breaks='The count of larger values overflows, so far more than k values are kept or fewer.',
         demo=DEMO % """x = jnp.asarray(np.random.RandomState(0).permutation(300), jnp.float32)
for k in (1, 3, 40):
  y = np.asarray(bs.topk_mask(x[None], k, -1e7))
  assert (y > -1e6).sum() == k, k"""),
]
