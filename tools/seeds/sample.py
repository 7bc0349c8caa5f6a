"""Planted bugs for C17."""
D = 't5x/decoding.py'
DEMO = """
import boot; boot.setup()
import numpy as np
import jax
import jax.numpy as jnp
from t5x import decoding
def model(rows):
    '''Weights after each token.'''
    t = jnp.asarray(rows, jnp.float32)
    def fn(st):
        w = t[st.cur_token[:, 0]]
        return jnp.where(w > 0, jnp.log(jnp.maximum(w, 1e-9)), -jnp.inf), st.cache
    return fn
def run(prompts, rows, **kw):
    o, l = decoding.temperature_sample(jnp.asarray(prompts, jnp.int32), {}, model(rows), 1,
                                       kw.pop('key', jax.random.PRNGKey(0)), **kw)
    return np.asarray(o), np.asarray(l)
%s
"""
SEEDS = [
    dict(id='c17-hard-limit-zero', property='C17',
         edits=[(D, "      and max_decode_steps_hard_limit > 0\n", "      and max_decode_steps_hard_limit >= 0\n")],
         needs='a hard limit of zero, which means no limit',
         breaks='Decoding stops at once although a limit of zero means none.',
         demo=DEMO % """o, l = run([[0, 2, 0, 0, 0]], [[0, 0, 1]] * 3, topk=0, max_decode_steps=3, max_decode_steps_hard_limit=0)
assert o.tolist() == [[[2, 2, 2, 2, 0]]], o"""),
    dict(id='c17-early-eos-count', property='C17',
         edits=[(D, "  initial_eos_count = jnp.sum(sequences0 == end_marker, axis=-1, keepdims=True)",
                 "  initial_eos_count = jnp.max(\n      (sequences0 == end_marker).astype(jnp.int32), axis=-1, keepdims=True\n  )")],
         needs='a prompt with two end tokens',
         breaks='A prompt with several end tokens is not continued.',
         demo=DEMO % """o, l = run([[0, 1, 2, 1, 0, 0]], [[0, 0, 1]] * 3, topk=0)
assert o.tolist() == [[[1, 2, 1, 2, 2, 2]]], o"""),
    dict(id='c17-steps-count-eos', property='C17',
         edits=[(D, "    max_decode_len = jnp.sum(inputs != 0, axis=1) + max_decode_steps",
                 "    max_decode_len = jnp.argmax(inputs[:, 1:] == 0, axis=1) + max_decode_steps")],
         needs='a step limit with a prompt that fills its whole length',
         breaks='A prompt without padding counts as empty, and its row ends early.',
         demo=DEMO % """o, l = run([[0, 2, 2, 2], [0, 2, 0, 0]], [[0, 0, 1]] * 3, topk=0, max_decode_steps=2)
assert o.tolist() == [[[2, 2, 2, 2]], [[2, 2, 2, 0]]], o"""),
    dict(id='c17-rescale-greedy', property='C17',
         edits=[(D, "      if rescale_log_probs:\n        next_log_prob = jnp.zeros_like(next_token, dtype=jnp.float32)",
                 "      if rescale_log_probs or (not _is_tracer(topk) and topk == 1):\n        next_log_prob = jnp.zeros_like(next_token, dtype=jnp.float32)")],
         needs='zero temperature, topk of one and unscaled scores',
         breaks='Greedy scores are zero although unscaled scores were asked for.',
         demo=DEMO % """o, l = run([[0, 0]], [[0, 0, 1, 3]] * 4, topk=1, temperature=0.0, rescale_log_probs=False)
assert abs(l[0, 0] - 2 * np.log(.75)) < 1e-4, l"""),
    dict(id='c17-stale-index', property='C17',
         edits=[(D, "        apply_to_index=initial_index is not None,", "        apply_to_index=initial_index is not None and cache_offset == 0,")],
         needs='several decodes from a prefilled cache of scanned layers',
         breaks='The index of a scanned cache is not expanded.',
         demo=DEMO % """shapes = []
def fn(st):
  shapes.append(st.cache['a']['cache_index'].shape)
  return jnp.zeros((st.cur_token.shape[0], 4)), st.cache
decoding.temperature_sample(jnp.asarray([[0, 2, 0, 0]] * 2), {'a': {'cache_index': jnp.ones((3, 2), jnp.int32), 'k': jnp.zeros((3, 2))}},
                            fn, 1, num_decodes=2, cache_offset=1, initial_index=jnp.asarray([1, 1]))
assert set(shapes) == {(3, 4)}, shapes"""),
]
