"""Planted bugs for C19."""
S = 't5x/examples/scalable_t5/network.py'
DL = 't5x/examples/decoder_only/layers.py'
G = 't5x/contrib/gpu/t5/network.py'
M = 't5x/models.py'
DEMO = """
import boot; boot.setup()
import numpy as np
import jax
import jax.numpy as jnp
import jax.api_util
jax.api_util.debug_info = getattr(jax.api_util, 'debug_info', lambda *a, **k: None)
from t5x import models
import seqio
V = seqio.PassThroughVocabulary(size=7, eos_id=1)
base = dict(vocab_size=7, emb_dim=8, num_heads=2, head_dim=4, mlp_dim=8, dropout_rate=0., dtype='float32',
            mlp_activations=('gelu', 'linear'), logits_via_embedding=False)
def encdec(net, **k):
  m = net.Transformer(net.T5Config(num_encoder_layers=2, num_decoder_layers=2, **base, **k))
  d = jnp.ones((2, 4), jnp.int32)
  return m, m.init(jax.random.PRNGKey(0), d, d, d, enable_dropout=False)['params']
def arr(*a):
  return jnp.asarray(a, jnp.int32)
def near(a, b):
  assert np.allclose(a, b, atol=1e-4), (a, b)
%s
"""
SEEDS = [
    dict(id='c19-decode-padding', property='C19',
         edits=[(S, """          jnp.ones_like(decoder_target_tokens),
          encoder_input_tokens > 0,""", """          jnp.ones_like(decoder_target_tokens),
          jnp.ones_like(encoder_input_tokens),""")],
         needs='decoding with the scalable network and padded encoder inputs',
         breaks='Decoding attends to the padding of the inputs, unlike training and scoring.',
         demo=DEMO % """from t5x.examples.scalable_t5 import network
m, p = encdec(network, scan_layers=False)
e, d = arr([2, 3, 0, 0]), arr([0, 4, 5, 6])
enc = m.apply({'params': p}, e, enable_dropout=False, method=m.encode)
_, v = m.apply({'params': p}, e * 0 + 1, d * 0 + 1, d * 0 + 1, decode=True, enable_dropout=False, mutable=['cache'])
full = m.apply({'params': p}, e, d, d * 0 + 1, enable_dropout=False)
c = v['cache']
for i in range(4):
  l, v = m.apply({'params': p, 'cache': c}, enc, e, d[:, i:i + 1], d[:, i:i + 1], enable_dropout=False, decode=True,
                 max_decode_length=4, mutable=['cache'], method=m.decode)
  c = v['cache']
  near(l[:, 0], full[:, i])"""),
    dict(id='c19-bias-rows', property='C19',
         edits=[(DL, """                common_utils.onehot(cur_index, num_classes=length),""",
                 """                common_utils.onehot(
                    jnp.max(cur_index, keepdims=True), num_classes=length
                ),""")],
         needs='prompts of different lengths decoded in one batch',
         breaks='Rows with shorter prompts use the position biases of the row with the longest.',
         demo=DEMO % """from t5x.examples.decoder_only import network
m = network.DecoderWrapper(network.TransformerConfig(num_layers=2, **base))
d = jnp.ones((2, 6), jnp.int32)
p = m.init(jax.random.PRNGKey(0), d, d, enable_dropout=False)['params']
def fn(*, inputs, cache, tokens_to_logits, eos_id, num_decodes, cache_offset, initial_index):
  from t5x import decoding
  b = inputs.shape[0]
  tok = jnp.take_along_axis(inputs, initial_index[:, None], 1)
  s = decoding.DecodingState(cur_index=initial_index, sequences=inputs, cur_token=tok, cache=cache)
  return jnp.zeros((b, 1, 6), jnp.int32), tokens_to_logits(s)[0][:, None]
mod = models.DecoderOnlyModel(m, V, None, decode_fn=fn)
x, bi = arr([0, 2, 3, 4, 5, 6], [0, 3, 4, 5, 2, 3]), arr([1, 1, 0, 0, 0, 0], [1, 1, 1, 1, 1, 0])
s = lambda r: mod.predict_batch_with_aux(p, dict(decoder_input_tokens=x[r], decoder_causal_attention=bi[r]))[1]['scores']
near(s(slice(0, 2))[0], s(slice(0, 1))[0])"""),
    dict(id='c19-gpu-cross', property='C19',
         edits=[(G, """      encoder_decoder_mask = layers.combine_masks(
          encoder_decoder_mask,
          layers.make_attention_mask(
              decoder_segment_ids,
              encoder_segment_ids,
              jnp.equal,""", """      encoder_decoder_mask = layers.combine_masks(
          encoder_decoder_mask,
          layers.make_attention_mask(
              decoder_segment_ids,
              encoder_segment_ids,
              jnp.greater_equal,""")],
         needs='the GPU network on packed examples',
         breaks='An example attends to the inputs of the examples packed before it.',
         demo=DEMO % """from t5x.contrib.gpu.t5 import network
m, p = encdec(network)
f = lambda e: m.apply({'params': p}, e, arr([0, 3, 0, 5]), arr([3, 4, 5, 6]), encoder_segment_ids=arr([1, 1, 2, 2]),
                      decoder_segment_ids=arr([1, 1, 2, 2]), enable_dropout=False)
near(f(arr([2, 3, 4, 5]))[0, 2:], f(arr([5, 6, 4, 5]))[0, 2:])"""),
    dict(id='c19-raw-tile', property='C19',
         edits=[(M, """        raw_inputs=decoding.flat_batch_beam_expand(
            encoder_input_tokens, num_decodes
        ),""", """        raw_inputs=jnp.tile(encoder_input_tokens, (num_decodes, 1)),""")],
         needs='several decodes per example and inputs padded differently within the batch',
         breaks="Hypotheses are masked with another example's input padding.",
         demo=DEMO % """from t5x.examples.t5 import network
m, p = encdec(network)
def fn(*, inputs, cache, tokens_to_logits, eos_id, num_decodes, cache_offset):
  from t5x import decoding
  b = inputs.shape[0]
  c = decoding.cache_map(lambda x: decoding.flat_batch_beam_expand(x, num_decodes), cache)
  s = decoding.DecodingState(cur_index=jnp.zeros((), jnp.int32), sequences=None, cur_token=jnp.zeros((b * num_decodes, 1), jnp.int32), cache=c)
  return jnp.zeros((b, num_decodes, 4), jnp.int32), tokens_to_logits(s)[0].reshape(b, num_decodes, -1)
mod = models.EncoderDecoderModel(m, V, V, None, decode_fn=fn)
e = arr([2, 3, 4, 5], [3, 0, 0, 0])
s = lambda n: mod.predict_batch_with_aux(p, dict(encoder_input_tokens=e, decoder_input_tokens=e * 0), num_decodes=n)[1]['scores']
near(s(1), s(2))"""),
    dict(id='c19-prompt-eos', property='C19',
         edits=[(M, """          decoder_prompt_inputs != self.output_vocabulary.eos_id
""", """          jnp.cumsum(
              decoder_prompt_inputs == self.output_vocabulary.eos_id, axis=-1
          )
          == 0
""")],
         needs='decoder prompts with an end token that is not the last token',
         breaks='Everything of a prompt after an end token is lost.',
         demo=DEMO % """from t5x.examples.t5 import network
m, p = encdec(network)
seen = {}
def fn(*, inputs, cache, tokens_to_logits, eos_id, num_decodes, cache_offset):
  seen['p'] = inputs
  return jnp.zeros((1, 1, 4), jnp.int32), jnp.zeros((1, 1))
mod = models.EncoderDecoderModel(m, V, V, None, decode_fn=fn)
mod.predict_batch_with_aux(p, dict(encoder_input_tokens=arr([2, 3]), decoder_input_tokens=arr([0, 3, 1, 4])), prompt_with_targets=True)
assert seen['p'].tolist() == [[0, 3, 0, 4]], seen"""),
]
