"""Planted bugs for C20."""
L = 't5x/losses.py'
M = 't5x/models.py'
DEMO = """
import boot; boot.setup()
import numpy as np
import jax
import jax.numpy as jnp
from t5x import losses
lg = jnp.log(jnp.asarray([[[1., 3.], [2., 2.], [3., 1.], [1., 1.]]]))
nll = -np.log([3 / 4, 1 / 2, 1 / 4, 1 / 2])
def loss(mode, t, **b):
  b = {k: jnp.asarray(v) for k, v in b.items()}
  b['decoder_target_tokens'] = jnp.asarray(t)
  f, w = losses.get_loss_normalizing_factor_and_weights(mode, b)
  return float(losses.compute_weighted_cross_entropy(lg, b['decoder_target_tokens'], w, loss_normalizing_factor=f)[0])
%s
"""
SEEDS = [
    dict(id='c20-small-weights', property='C20',
         edits=[(L, "      norm_vec = jnp.sum(loss_weights, axis=-1, keepdims=True)\n", "      norm_vec = jnp.maximum(\n          jnp.sum(loss_weights, axis=-1, keepdims=True), 1.0\n      )\n")],
         needs='an example whose weights add up to less than one',
         breaks='Examples with small weights count less than the others.',
         demo=DEMO % """lg = jnp.concatenate([lg, lg[:, ::-1]])
g = loss('AVERAGE_PER_SEQUENCE', [[1, 1, 1, 1]] * 2, decoder_loss_weights=[[.5, 0, 0, 0], [1., 1., 1., 1.]])
assert abs(g - (nll[0] + nll.mean()) / 2) < 1e-5, g"""),
    dict(id='c20-real-counts', property='C20',
         edits=[(L, "    output_normalizing_factor = jnp.sum(loss_weights)\n  elif (", "    output_normalizing_factor = jnp.sum(loss_weights > 0)\n  elif (")],
         needs='fractional loss weights with NUM_REAL_TARGET_TOKENS',
         breaks='The loss is divided by the number of weighted tokens instead of the sum of the weights.',
         demo=DEMO % """g = loss('NUM_REAL_TARGET_TOKENS', [[1, 1, 1, 1]], decoder_loss_weights=[[.5, .5, 0, 1.]])
assert abs(g - (nll[0] / 2 + nll[1] / 2 + nll[3]) / 2) < 1e-5, g"""),
    dict(id='c20-z-slope', property='C20',
         edits=[(L, "  log_z = jnp.squeeze(jnp.log(sum_exp) + max_logit, axis=-1)\n  total_z_loss = z_loss * jax.lax.square(log_z)\n  loss += total_z_loss\n",
                 "  log_z = jnp.squeeze(jnp.log(sum_exp) + max_logit, axis=-1)\n  total_z_loss = z_loss * jax.lax.square(log_z)\n  loss += total_z_loss\n  log_z = jnp.abs(log_z)\n")],
         needs='z-loss with a normaliser below one, under differentiation',
         breaks='The gradient of the z-loss has the wrong sign when log z is negative.',
         demo=DEMO % """f = lambda l: losses.cross_entropy_with_logits(l, jnp.asarray([[[0., 1.]]]), .5)[0].sum()
x = jnp.asarray([[[-2., -3.]]])
h = jnp.asarray([[[1e-2, 0.]]])
assert abs(float(jax.grad(f)(x)[0, 0, 0]) - float((f(x + h) - f(x - h)) / 2e-2)) < 1e-2"""),
    dict(id='c20-score-z', property='C20',
         edits=[(M, """                decoder_target_tokens, logits.shape[-1], on_value=1, off_value=0
            ),
            z_loss=0.0,""", """                decoder_target_tokens, logits.shape[-1], on_value=1, off_value=0
            ),
            z_loss=self._z_loss,""")],
         needs='a decoder-only model trained with z-loss',
         breaks='Scores include the z-loss, which is for training only.',
         demo=DEMO % """import seqio
from flax import linen as nn
from t5x import models
class Mod(nn.Module):
  @nn.compact
  def __call__(self, *a, **k):
    return self.param('l', lambda *_: lg)
v = seqio.PassThroughVocabulary(size=2)
b = {'decoder_target_tokens': jnp.ones((1, 4), jnp.int32), 'decoder_input_tokens': jnp.ones((1, 4), jnp.int32),
     'decoder_loss_weights': jnp.ones((1, 4))}
s = models.DecoderOnlyModel(Mod(), v, None, z_loss=.1).score_batch({'l': lg}, b)
assert abs(float(s[0]) + nll.sum()) < 1e-5, s"""),
]
