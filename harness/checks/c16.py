"""C16: beam search returns the best hypotheses with their true scores.

beam_search runs with models whose weights depend, through the cache, on the
whole history; every answer is judged by TLC, which follows each hypothesis and
repeats the search (spec/BeamSearch.tla); spec/BeamSearchMC.tla is the search.
"""
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

M = 5
EOS = 1
PRIMES = [1, 2, 3, 5, 7, 11, 13, 17, 19, 23]


def table(r, vocab, beams, late=False):
    rows = []
    if late:        # long hypotheses that win at last
        def row():
            big = set(r.choice([(EOS,), (2,), (3,), (2,), (3,), (EOS, 2), (EOS, 3)]))
            return [0] + [r.randint(300, 600) if i in big else r.randint(1, 6) for i in range(1, vocab)]
        return [row() for _ in range(M)]
    for _ in range(M):
        w = [0] + [r.choice(PRIMES[:r.choice([3, 10, 10, 10])]) for _ in range(vocab - 1)]
        if r.random() < .3:
            w[EOS] = 1
        # slots without hypothesis only while every state can end
        rows.append(w)
    if vocab - 1 > 2 * beams and r.random() < .5:
        # room for tokens that cannot be drawn, the end token included
        for w in rows:
            spare = vocab - 1 - 2 * beams
            for i in r.sample(range(1, vocab), r.randint(0, spare)):
                w[i] = 0
    return rows


def build(s):
    import flax
    import jax
    import jax.numpy as jnp
    from t5x import decoding
    B, K, off = s['B'], s['K'], s['offset']

    def fn(table, inputs, h, start):
        def model(state):
            lay = state.cache['layer']
            hs, idx = lay['cached_h'], lay['cache_index']
            n = B * K
            assert lay['rel']['cached_bias'].shape == (1, 3)
            hh = hs[1] if off else hs
            ii = jnp.reshape(idx[1] if off else idx, (-1,))
            assert hh.shape == (n,) and ii.shape == ((n,) if s['init'] else (1,)), (hh.shape, ii.shape)
            assert state.cur_token.shape == (n, 1)
            tok = state.cur_token[:, 0]
            new = (3 * hh + tok + 2 * ii + 1) % M
            pos = jnp.arange(state.sequences.shape[1])[None]
            seen = jnp.sum(jnp.where(pos <= state.cur_index, state.sequences * (pos + 1), 0), axis=1)
            w = table[(new + seen) % M].astype(jnp.float32)
            logits = jnp.where(w > 0, jnp.log(jnp.maximum(w, 1)), -1e9)
            newh = jnp.stack([hs[0], new]) if off else new
            return logits, {'layer': {'cached_h': newh, 'cache_index': idx + 1, 'rel': lay['rel']}}
        if off:
            hh = jnp.stack([jnp.zeros_like(h), h])
            idx = jnp.stack([start, start]) if s['init'] else jnp.zeros((2,), jnp.int32)
        else:
            hh, idx = h, (start if s['init'] else jnp.zeros((), jnp.int32))
        cache = {'layer': {'cached_h': hh, 'cache_index': idx, 'rel': {'cached_bias': jnp.ones((1, 3))}}}
        if s['frozen']:
            cache = flax.core.freeze(cache)
        kw = {}
        if s['init']:
            kw['initial_index'] = start
        if s['limit'] != s['L'] or s['explicit']:
            kw['max_decode_len'] = s['limit']
        if s['maxstep'] > 0:
            kw['max_decode_step'] = s['maxstep']
        return decoding.beam_search(
            inputs, cache, (lambda st: (lambda a, b: (a, flax.core.freeze(b)))(*model(st))) if s['frozen'] else model, EOS,
            num_decodes=K, alpha=float(s['alpha']), cache_offset=off, **kw)
    return jax.jit(fn)


def feed(pr, st, h):
    for q in range(st):
        h = (3 * h + pr[q] + 2 * q + 1) % M
    return h


def one(r, s, fn):
    import jax.numpy as jnp
    import numpy as np
    B, L, V, K = s['B'], s['L'], s['V'], s['K']
    tab = table(r, V, K, s['late'])
    top = min(L - 1, s['limit'] - 1)
    if s['maxstep'] > 0 and not s['init']:
        top = min(top, s['maxstep'] - 1)
    prompts, starts, h0 = [], [], []
    for _ in range(B):
        n = min(r.choice([0, 0, 1, 2, r.randint(0, L - 1)]), max(top, 0))
        prompts.append([0] + [r.randint(2, V - 1) for _ in range(n)] + [0] * (L - 1 - n))
        starts.append(n if s['init'] else 0)
        h0.append(r.randrange(M))

    def call(prompts, starts, h0):
        hs = [feed(*x) for x in zip(prompts, starts, h0)]
        o, l = fn(jnp.asarray(tab), jnp.asarray(prompts, jnp.int32), jnp.asarray(hs, jnp.int32), jnp.asarray(starts, jnp.int32))
        o, l = np.asarray(o), np.asarray(l, np.float64)
        assert o.shape == (B, K, s['limit']) and l.shape == (B, K), (o.shape, l.shape)
        assert not np.isnan(l).any(), l
        return o.tolist(), l
    out, lp = call(prompts, starts, h0)
    keep = r.randrange(B)
    prompts2 = [x if i == keep else [r.randint(2, V - 1) if t else 0 for t in x] for i, x in enumerate(prompts)]
    kept, lp2 = call(prompts2, starts, [x if i == keep else (x + 1) % M for i, x in enumerate(h0)])
    fil = lp < -1e6
    rows = [dict(prompt=prompts[i], start=starts[i], h0=h0[i], b=1, out=out[i],
                 score=[0 if f else int(round(x * 1e4)) for x, f in zip(lp[i], fil[i])],
                 filler=[bool(f) for f in fil[i]]) for i in range(B)]
    real = [kept[i] if i == keep and not fil[i].any() else [] for i in range(B)]
    return dict(len=L, vocab=V, eos=EOS, table=tab, ban=-1, beams=K, alpha=s['alpha'], limit=s['limit'],
                least=min(starts), maxstep=s['maxstep'], rows=rows, kept=real)


def calls(item):
    seed, num = item
    r = random.Random('c16 %d' % seed)
    L = r.choice([2, 3, 4, 5, 6])
    style = r.choice(['narrow', 'narrow', 'tiny', 'wide', 'late'])
    K, V = {'narrow': (r.choice([1, 2, 2]), r.choice([5, 6, 7])),
            'tiny': (r.choice([2, 3, 4]), r.choice([3, 4])),
            'late': (r.choice([1, 1, 2]), 4), 'wide': (12, 3)}[style]
    if style == 'late':
        L = r.choice([6, 8, 10])
    if style == 'wide':
        L = min(L, 4)
    s = dict(B=r.choice([1, 2, 3]), L=L, V=V, K=K, offset=r.choice([0, 0, 1]), init=r.random() < .45,
             frozen=r.random() < .3, alpha=r.choice(['0', '1', '1', '0.6']), maxstep=-1, limit=L,
             explicit=r.random() < .2, late=style == 'late')
    if style == 'late':
        s.update(alpha=r.choice(['1', '1', '0.6']), init=False, B=1)
    if r.random() < .2 and not s['init']:
        s['limit'] = r.choice([max(2, L - 1), L + 1])
    if r.random() < .2:
        s['maxstep'] = r.randint(1, L)
    fn = build(s)
    return [one(r, s, fn) for _ in range(12 * num if style == 'late' else num)]


def mc(chk):
    r = random.Random(7)
    tabs = []
    for _ in range(chk.n(4, 24)):
        t = table(r, 3, 9)
        tabs.append('<<' + ', '.join('<<%s>>' % ', '.join(map(str, x)) for x in t) + '>>')
    for L in (3, 4):
        calls_ = ('[len : {%d}, vocab : {3}, eos : {1}, table : {%s}, ban : {-1}, beams : {%s}, alpha : {"0", "1", "0.6"}, '
                  'limit : {%d}, least : {0}, maxstep : {-1}]' % (L, ', '.join(tabs), '1, 2, 3, 9' if L == 3 else '1, 2, 9', L))
        rows = '{[prompt |-> pr, start |-> st, h0 |-> h, b |-> 1] : pr \\in {%s}, st \\in {0}, h \\in 0..%d}' % (
            ', '.join('<<%s>>' % ', '.join(map(str, [0] + [2] * n + [0] * (L - 1 - n))) for n in (0, 1)), chk.n(2, 4))
        st = tlc.check('BeamSearchMC', cfg(
            spec='Spec', constants=dict(Calls=Raw(calls_), RowsOf=Raw(rows)),
            invariants=['StopHarmless', 'WideFindsBest', 'Sound'], properties=['Ends']))
        chk.spec('BeamSearchMC L=%d' % L, st)


def run(chk):
    mc(chk)
    items = [(chk.seed * 1000 + j, 4) for j in range(chk.n(64, 800))]
    allc = []
    for it, c in zip(items, pool.pmap(chk, 'harness.checks.c16', 'calls', items, procs=8, devices=1)):
        allc += [(it, x) for x in c or []]
    bad, n = tlc.judge('BeamSearch', [c for _, c in allc], op='OkBeam')
    for b in bad:
        what, c = allc[b]
        chk.violation('call %s' % (what,), str(c), c)
    chk.validated(n, allc[0][1] if allc else None)
    blur, _ = tlc.judge('BeamSearch', [c for _, c in allc], op='Sharp')
    chk.note(calls=len(allc), with_ties=len(blur))
