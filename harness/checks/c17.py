"""C17: sampled sequences continue their prompts and report true scores.

temperature_sample runs with models whose weights depend, through the cache, on
the whole history; every returned sequence and score is judged by TLC
(spec/Sampling.tla); spec/SamplingMC.tla is the loop.
"""
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

M = 5
EOS = 1


def np_roots(r, vocab, hi):
    rows = []
    for _ in range(M):
        style = r.random()
        w = [0 if r.random() < .25 else r.randint(1, hi) for _ in range(vocab)]
        if style < .3:
            w = [r.choice([0, 1, hi]) for _ in range(vocab)]
        if vocab > 2:
            w[0] = 0 if r.random() < .8 else 1
        if r.random() < .4:
            w[EOS] = 0
        while sum(x > 0 for x in w) < min(2, vocab):
            w[r.randrange(1, vocab)] = r.randint(1, hi)
        rows.append(w)
    return rows


def masses(w):
    s = sorted(w)[::-1]
    return [(sum(s[:i + 1]), sum(s)) for i in range(len(s))]


def pick_p(r, table, ban, bs):
    """A p that no reachable mass is near to."""
    for _ in range(200):
        den = r.choice([7, 20, 101])
        num = r.randint(1, den - 1)
        ok = True
        for row in table:
            for b in bs:
                w = [0 if i == ban else x ** b for i, x in enumerate(row)]
                if any(abs(m / t - num / den) < 1e-4 for m, t in masses(w)):
                    ok = False
        if ok:
            return num, den
    return None


def model(V, offset, vec, a, layers=2):
    """tokens_to_logits over a carried hash; table is traced."""
    import jax.numpy as jnp

    def make(table):
        def fn(state):
            lay = state.cache['layer']
            h, idx = lay['cached_h'], lay['cache_index']
            assert lay['rel']['cached_bias'].shape == (1, 3), lay['rel']['cached_bias'].shape
            if offset:
                assert h.ndim == 2 and h.shape[0] == layers
                hh, ii = h[1], idx[1]
            else:
                hh, ii = h, idx
            n = state.cur_token.shape[0]
            assert hh.shape == (n,) and (ii.shape == ((n,) if vec else ())), (hh.shape, ii.shape, n)
            tok = state.cur_token[:, 0]
            new = (3 * hh + tok + 2 * ii + 1) % M
            pos = jnp.arange(state.sequences.shape[1])[None]
            seen = jnp.sum(jnp.where(pos <= state.cur_index[:, None], state.sequences * (pos + 1), 0), axis=1)
            g = (new + seen) % M
            w = table[g].astype(jnp.float32)
            logits = jnp.where(w > 0, a * jnp.log(jnp.maximum(w, 1)), -jnp.inf)
            newh = jnp.stack([h[0], new]) if offset else new
            return logits, {'layer': {'cached_h': newh, 'cache_index': idx + 1, 'rel': lay['rel']}}
        return fn
    return make


def build(s):
    """A compiled sampler for a structure s."""
    import flax
    import jax
    import jax.numpy as jnp
    from t5x import decoding
    B, off = s['B'], s['offset']

    def fn(table, inputs, h, start, key, temp, k, p, steps, ban):
        if off:
            hh = jnp.stack([jnp.zeros_like(h), h])
            idx = jnp.stack([start, start]) if s['init'] else jnp.zeros((2,), jnp.int32)
        else:
            hh, idx = h, (start if s['init'] else jnp.zeros((), jnp.int32))
        cache = {'layer': {'cached_h': hh, 'cache_index': idx, 'rel': {'cached_bias': jnp.ones((1, 3))}}}
        if s['frozen']:
            cache = flax.core.freeze(cache)
        kw = {}
        if s['init']:
            kw['initial_index'] = start
        if s['steps']:
            kw['max_decode_steps'] = steps if s['steps'] == 'traced' else s['nsteps']
        if s['hard'] is not None:
            kw['max_decode_steps_hard_limit'] = s['hard']
        if s['ban']:
            kw['logit_callback_fn'] = lambda l, st: jnp.where(jnp.arange(s['V'])[None] == ban, -jnp.inf, l)
        if not s['rescale']:
            kw['rescale_log_probs'] = False
        return decoding.temperature_sample(
            inputs, cache, model(s['V'], off, s['init'], s['a'])(table), EOS, key,
            num_decodes=s['D'], temperature=temp if s['temp'] != 'static' else s['T'],
            topk=k if s['k'] == 'traced' else s['nk'], topp=p if s['p'] == 'traced' else s['np'],
            cache_offset=off, **kw)
    return jax.jit(fn)


def one(r, s, fn, table):
    import jax
    import jax.numpy as jnp
    import numpy as np
    B, L, V = s['B'], s['L'], s['V']
    prompts, starts, h0 = [], [], []
    for _ in range(B):
        n = r.choice([0, 1, 2, r.randint(0, L - 1)])
        n = min(n, L - 1)
        prompts.append([0] + [r.randint(1, V - 1) for _ in range(n)] + [0] * (L - 1 - n))
        starts.append(r.choice([n, n, r.randint(0, n)]) if s['init'] else 0)
        h0.append(r.randrange(M))
    ban = r.choice([-1] + list(range(2, V))) if s['ban'] else -1
    for row in table:
        if ban >= 0 and sum(x > 0 for i, x in enumerate(row) if i != ban) < 1:
            ban = -1
    if s['temp'] == 'array':
        bs = [r.choice([0, 1, 2]) for _ in range(B)]
    elif s['temp'] == 'scalar':
        bs = [r.choice([0, 1, 1, 2])] * B
    else:
        bs = [s['b']] * B
    tval = [s['a'] / b if b else r.choice([0.0, 5e-5]) for b in bs]
    temp = np.asarray(tval, np.float32) if s['temp'] == 'array' else np.float32(tval[0])
    k = r.choice([0, 1, 2, 3]) if s['k'] == 'traced' else s['nk']
    pnum, pden, p = 0, 1, 0.0
    if s['p'] == 'traced':
        if not k and r.random() < .7:
            pq = pick_p(r, table, ban, [b for b in set(bs) if b])
            if pq:
                pnum, pden = pq
        p = pnum / pden
    elif s['np']:
        pnum, pden = s['pq']
        if any(abs(m / t - pnum / pden) < 1e-4 for row in table for b in set(bs) if b
               for m, t in masses([0 if i == ban else x ** b for i, x in enumerate(row)])):
            return None
    steps = -1
    if s['steps']:
        steps = s['nsteps'] if s['steps'] == 'static' else r.randint(1, L)
    key = jax.random.PRNGKey(r.randrange(10**6))

    def feed(pr, st, h):
        for q in range(st):
            h = (3 * h + pr[q] + 2 * q + 1) % M
        return h
    def call(prompts, starts, h0):
        hs = [feed(*x) for x in zip(prompts, starts, h0)]
        o, l = fn(jnp.asarray(table), jnp.asarray(prompts, jnp.int32), jnp.asarray(hs, jnp.int32),
                  jnp.asarray(starts, jnp.int32), key, jnp.asarray(temp), k, p, steps, ban)
        o, l = np.asarray(o), np.asarray(l, np.float64)
        assert o.shape == (B, s['D'], L) and l.shape == (B, s['D']), (o.shape, l.shape)
        assert np.isfinite(l).all(), l
        return o.tolist(), np.rint(l * 1e5).astype(int).tolist()
    out, lp = call(prompts, starts, h0)
    again, _ = call(prompts, starts, h0)
    keep = r.randrange(B)
    prompts2 = [x if i == keep else [0] + [r.randint(1, V - 1)] + [0] * (L - 2) if L > 1 else x
                for i, x in enumerate(prompts)]
    starts2 = [x if i == keep else min(x, 1) for i, x in enumerate(starts)]
    kept, _ = call(prompts2, starts2, [x if i == keep else (x + 1) % M for i, x in enumerate(h0)])
    rows = [dict(prompt=prompts[i], start=starts[i], h0=h0[i], b=bs[i], out=out[i], lp=lp[i]) for i in range(B)]
    return dict(kind='call', len=L, vocab=V, eos=EOS, table=table, ban=ban, a=s['a'], topk=k, pnum=pnum, pden=pden,
                steps=steps, hard=s['hard'] or 0, rescale=s['rescale'], rows=rows, again=again,
                kept=[kept[i] if i == keep else [] for i in range(B)])


def calls(item):
    seed, num = item
    r = random.Random('c17 %d' % seed)
    out = []
    s = dict(B=r.choice([1, 2, 3]), L=r.choice([2, 4, 6, 8]), V=r.choice([3, 4, 5]), D=r.choice([1, 2, 3]),
             offset=r.choice([0, 0, 1]), init=r.random() < .5, frozen=r.random() < .3,
             steps=r.choice([None, 'static', 'traced']), hard=r.choice([None, 0, 1, 2]),
             ban=r.random() < .25, rescale=r.random() < .6, a=r.choice([1, 2]),
             temp=r.choice(['static', 'static', 'scalar', 'array']), k='static', nk=0, p='static', np=0.0)
    s['nsteps'] = r.randint(1, s['L'])
    s['b'] = r.choice([0, 1, 2])
    s['T'] = s['a'] / s['b'] if s['b'] else 0.0
    mode = r.choice(['none', 'k', 'k', 'p', 'p', 'tk', 'tp', 'tkp'])
    if mode == 'k':
        s['nk'] = r.choice([1, 2, 3, s['V'] + 2])
    elif mode == 'p':
        s['pq'] = (r.randint(1, 19), 20)
        s['np'] = s['pq'][0] / 20
    if 't' in mode:
        s['k'] = 'traced' if 'k' in mode else 'static'
        s['p'] = 'traced' if 'p' in mode else 'static'
    if r.random() < .12:
        s.update(temp='static', b=0, T=0.0, k='static', p='static', np=0.0, nk=1, rescale=False)
    fn = build(s)
    while len(out) < num:
        c = one(r, s, fn, np_roots(r, s['V'], 8 if r.random() < .5 else 4))
        if c:
            out.append(c)
    return out


def freq(item):
    """Constant distributions: many draws."""
    seed, _ = item
    import jax
    import jax.numpy as jnp
    import numpy as np
    from t5x import decoding
    r = random.Random('freq %d' % seed)
    w = [0, 0] + r.choice([[1, 1], [3, 1], [1, 1, 2], [5, 2, 1], [1, 1, 1]])
    V, B, D, L = len(w), r.choice([1, 4, 8]), r.choice([1, 3, 5]), 40
    b = r.choice([1, 1, 2])
    arr = r.random() < .5
    T = jnp.full((B,), 1. / b) if arr else 1. / b
    lg = jnp.log(jnp.asarray(w, jnp.float32))
    kw = r.choice([dict(topk=0), dict(topk=V - 2), dict(topk=0, topp=0.999)])
    fn = jax.jit(lambda key: decoding.temperature_sample(
        jnp.zeros((B, L), jnp.int32), {'x': jnp.zeros((B,))},
        lambda st: (jnp.tile(lg, (st.cur_token.shape[0], 1)), st.cache), EOS, key,
        num_decodes=D, temperature=T, **kw))
    tot, outs = np.zeros(V, int), []
    n = 0
    i = 0
    while n < 1000:
        o = np.asarray(fn(jax.random.PRNGKey(seed * 1000 + i))[0]).reshape(-1, L)
        i += 1
        outs += o.tolist()
        tot += np.bincount(o.ravel(), minlength=V)[:V]
        n += o.size
    return [dict(kind='freq', w=[x ** b for x in w], count=tot.tolist(), n=n,
                 outs=outs if max(w) ** b <= .6 * sum(x ** b for x in w) else [])]


def both(item):
    import jax.numpy as jnp
    from t5x import decoding
    out = []
    for k, p in ((1, .5), (3, .9)):
        try:
            decoding.temperature_sample(
                jnp.zeros((1, 3), jnp.int32), {}, lambda st: (jnp.zeros((1, 4)), st.cache), EOS, topk=k, topp=p)
            got = False
        except ValueError:
            got = True
        out.append(dict(kind='both', raised=got))
    return out


def cases(item):
    what, seed, num = item
    return globals()[what]((seed, num))


def mc(chk):
    """The loop on a small model, for batches of two rows."""
    table = '<<' + ', '.join('<<%s>>' % ', '.join(map(str, x)) for x in (
        [0, 1, 2], [0, 2, 1], [1, 1, 1], [0, 1, 3], [0, 2, 2])) + '>>'
    call = '[len |-> %d, vocab |-> 3, eos |-> 1, table |-> ' + table + (
        ', ban |-> -1, a |-> 1, topk |-> k, pnum |-> p, pden |-> 7, steps |-> st, hard |-> h, rescale |-> re]')
    for L, rows, early, temps in ((3, 1, True, '0..2'), (2, 2, True, '{1}')) if not chk.thorough else (
            (4, 1, True, '0..2'), (2, 2, True, '0..2'), (3, 2, False, '0..2'), (2, 3, True, '{1}')):
        calls_ = ('{x \\in {%s : k \\in {0, 1}, p \\in {0, 4}, st \\in {-1, 1, %d}, h \\in {0, 1}, '
                  're \\in %s} : x.topk = 0 \\/ x.pnum = 0}') % (call % L, L, 'BOOLEAN' if rows == 1 or chk.thorough else '{TRUE}')
        prompts = '{[p \\in 1..%d |-> IF p = 1 THEN 0 ELSE IF p - 1 <= n THEN t[p] ELSE 0] : n \\in 0..%d, t \\in [2..%d -> 1..2]}' % (
            L, L - 1, L)
        st = tlc.check('SamplingMC', cfg(
            spec='Spec', constants=dict(Len0=L, Calls=Raw(calls_), Prompts=Raw(prompts), Rows=rows, EarlyStart=early, Temps=Raw(temps)),
            invariants=['Valid', 'PromptKept', 'TableOk'], properties=['Ends']))
        chk.spec('SamplingMC L=%d rows=%d' % (L, rows), st)


def run(chk):
    mc(chk)
    items = [('calls', chk.seed * 1000 + j, 4) for j in range(chk.n(56, 600))]
    items += [('freq', chk.seed * 1000 + j, 0) for j in range(chk.n(10, 60))] + [('both', 0, 0)]
    allc = []
    for it, c in zip(items, pool.pmap(chk, 'harness.checks.c17', 'cases', items, procs=8, devices=1)):
        allc += [(it[:2], x) for x in c or []]
    bad, n = tlc.judge('Sampling', [c for _, c in allc], op='OkSample')
    for b in bad:
        what, c = allc[b]
        chk.violation('%s %s' % what, '%s: %s' % (what, {k: v for k, v in c.items() if k != 'outs'}), c)
    chk.validated(n, allc[0][1] if allc else None)
    chk.note(calls=sum(c['kind'] == 'call' for _, c in allc))
