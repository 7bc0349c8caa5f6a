"""Planted bugs for C16."""
D = 't5x/decoding.py'
DEMO = """
import boot; boot.setup()
import itertools
import numpy as np
import jax.numpy as jnp
from t5x import decoding
def model(rows):
    '''Weights after each token, the cache carries the previous one.'''
    t = jnp.asarray(rows, jnp.float32)
    def fn(st):
        tok = st.cur_token[:, 0]
        w = t[(2 * st.cache['h'] + tok) %% len(rows)]
        return jnp.where(w > 0, jnp.log(jnp.maximum(w, 1e-9)), -1e9), {'h': tok}
    return fn
def weights(rows, seq, i):
    tok = lambda j: 0 if j < 0 else seq[j]
    return rows[(2 * tok(i - 2) + tok(i - 1)) %% len(rows)]
def lp(rows, seq, n):
    '''Log probability of the first n tokens.'''
    return sum(np.log(weights(rows, seq, i)[seq[i]] / sum(weights(rows, seq, i))) for i in range(n))
import functools, jax, random
@functools.lru_cache(None)
def compiled(n, kw):
    def f(p, t):
        def fn(st):
            tok = st.cur_token[:, 0]
            w = t[(2 * st.cache['h'] + tok) %% n]
            return jnp.where(w > 0, jnp.log(jnp.maximum(w, 1e-9)), -1e9), {'h': tok}
        return decoding.beam_search(p, {'h': jnp.zeros((p.shape[0],), jnp.int32)}, fn, 1, **dict(kw))
    return jax.jit(f)
def run(prompts, rows, **kw):
    o, l = compiled(len(rows), tuple(sorted(kw.items())))(jnp.asarray(prompts, jnp.int32), jnp.asarray(rows, jnp.float32))
    return np.asarray(o), np.asarray(l)
def plain(rows, L, K, alpha):
    live, fin = [((), 0.0)], []
    for p in range(L):
        c = sorted([(s + (v,), lp(rows, s + (v,), p + 1)) for s, _ in live for v in range(1, len(rows[0]))], key=lambda x: -x[1])[:2 * K]
        fin = sorted(fin + [(s, x / ((6 + p) / 6) ** alpha) for s, x in c if s[-1] == 1], key=lambda x: -x[1])[:K]
        live = [x for x in c if x[0][-1] != 1][:K]
    return fin
%s
"""
SEEDS = [
    dict(id='c16-few-candidates', property='C16',
         edits=[(D, "    beams_to_keep = 2 * beam_size\n", "    beams_to_keep = min(2 * beam_size, beam_size + 2)\n"),
                (D, "        new_topk_indices,\n        batch_size,\n        2 * beam_size,\n        beam_size,\n    )\n\n    # Determine the top k beam indices from the original",
                 "        new_topk_indices,\n        batch_size,\n        beams_to_keep,\n        beam_size,\n    )\n\n    # Determine the top k beam indices from the original"),
                (D, "        new_topk_indices,\n        batch_size,\n        2 * beam_size,\n        beam_size,\n    )\n    # With these",
                 "        new_topk_indices,\n        batch_size,\n        beams_to_keep,\n        beam_size,\n    )\n    # With these")],
         needs='at least two hypotheses that end at the same step while others live',
         breaks='When several hypotheses end together, better live ones are lost.',
         demo=DEMO % """for k in range(200):
  r = random.Random(k)
  rows = [[0] + [r.randint(1, 99) for _ in range(5)] for _ in range(7)]
  L, K = 5, 3
  o, l = run([[0] * L], rows, num_decodes=K, alpha=0.0)
  want = [list(s) + [0] * (L - len(s)) for s, _ in plain(rows, L, K, 0)][::-1]
  got = [x for x, y in zip(o[0].tolist(), l[0]) if y > -1e6]
  if len(want) == 3:
    assert got == want, (k, got, want)"""),
    dict(id='c16-penalty-live', property='C16',
         edits=[(D, "    min_brevity_penalty = brevity_penalty(alpha, max_decode_len)", "    min_brevity_penalty = brevity_penalty(alpha, state.cur_index + 1)")],
         needs='a live hypothesis that is worse now than all finished ones but would win once its length counts',
         breaks='The search stops early although a longer hypothesis would score better.',
         demo=DEMO % """for k in range(3000):
  r = random.Random(k)
  rows = [[0] + [r.choice([1, 1, 700, 1000]) for _ in range(3)] for _ in range(7)]
  L, K = 9, 1
  o, l = run([[0] * L], rows, num_decodes=K, alpha=1.0)
  fin = plain(rows, L, K, 1)
  if fin and l[0, -1] > -1e6:
    assert l[0, -1] > fin[0][1] - 1e-3, (l, fin)"""),
    dict(id='c16-any-terminates', property='C16',
         edits=[(D, "    search_terminated = jnp.all(worst_finished_scores > best_live_scores)",
                 "    search_terminated = jnp.any(\n        jnp.all(worst_finished_scores > best_live_scores, axis=1)\n    )")],
         needs='a batch with one item that is settled long before another',
         breaks='An item stops being searched when another item of the batch is settled.',
         demo=DEMO % """for k in range(100):
  r = random.Random(k)
  rows = [[0] + [r.choice([1, 2, 5, 20, 90]) for _ in range(4)] for _ in range(7)]
  A = [0] * 7
  one, l1 = run([A], rows, num_decodes=2, alpha=0.0)
  for b in ([0, 2, 0, 0, 0, 0, 0], [0, 3, 3, 0, 0, 0, 0], [0, 2, 3, 0, 0, 0, 0], [0, 3, 2, 4, 0, 0, 0]):
    two, l2 = run([A, b], rows, num_decodes=2, alpha=0.0)
    assert np.array_equal(one[0], two[0]) or l1[0, 0] < -1e6, (one, two)"""),
    dict(id='c16-prompt-length', property='C16',
         edits=[(D, "    topk_lengths = jnp.repeat(initial_index[:, None], beams_to_keep, axis=1)",
                 "    topk_lengths = jnp.minimum(\n        initial_index[:, None], jnp.ones((batch_size, beams_to_keep), jnp.int32)\n    )")],
         needs='a prefilled prompt of at least two tokens and a length penalty',
         breaks='The length penalty counts only one token of the prompt.',
         demo=DEMO % """rows = [[0, 3, 1, 2]] * 8
p = jnp.asarray([[0, 2, 2, 2, 0, 0, 0, 0]], jnp.int32)
o, l = decoding.beam_search(p, {'h': jnp.asarray([2], jnp.int32)}, model(rows), 1, num_decodes=1, alpha=1.0, initial_index=jnp.asarray([3]))
o, l = np.asarray(o)[0, 0].tolist(), float(l[0, 0])
n = o.index(1)
want = (np.log(3 / 6) + sum(np.log([0, 3, 1, 2][v] / 6) for v in o[3:n])) / ((5 + n + 1) / 6)
assert abs(l - want) < 1e-3, (o, l, want)"""),
    dict(id='c16-scanned-cache', property='C16',
         edits=[(D, "        return jnp.einsum('beo,lbo...->lbe...', oh_beam_indices, x).astype(\n            x.dtype\n        )",
                 "        first = jnp.einsum('beo,bo...->be...', oh_beam_indices, x[0])\n        return jnp.concatenate([first[None].astype(x.dtype), x[1:]])")],
         needs='the cache of scanned layers and hypotheses that change places',
         breaks='Only the first scanned layer follows its hypothesis.',
         demo=DEMO % """import random
for k in range(12):
  r = random.Random(k)
  rows = [[0] + [r.choice([1, 2, 5, 7, 11]) for _ in range(3)] for _ in range(7)]
  m = model(rows)
  def fn(st):
    class S: pass
    s = S(); s.cur_token = st.cur_token; s.cache = {'h': st.cache['h'][1]}
    l, c = m(s)
    return l, {'h': jnp.stack([st.cache['h'][0], c['h']])}
  a, la = run([[0] * 6], rows, num_decodes=3, alpha=0.0)
  b, lb = decoding.beam_search(jnp.zeros((1, 6), jnp.int32), {'h': jnp.zeros((2, 1), jnp.int32)}, fn, 1, num_decodes=3, alpha=0.0, cache_offset=1)
  assert np.array_equal(a, b), (a, b)"""),
]
