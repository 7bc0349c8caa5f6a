"""C19: attention never crosses masks, and cached decoding equals full decoding.

The shipped networks, made tiny, are run on random packings and prefixes: how
outputs change with every token is compared with what the masks let through,
packed examples with the same examples alone, and step-by-step decoding through
the models (with forced, sampled and searched sequences) with the computation
over whole sequences.  Judged by TLC (spec/Attention.tla).
"""
import random

from harness import nets, pool, tlc
from harness.tlc import cfg, Raw

N, E = 8, 6         # decoder and encoder lengths
DEVICES = 1


def fix(a):
    import numpy as np
    a = np.nan_to_num(np.asarray(a, np.float64), nan=2e4, posinf=2e4, neginf=-2e4)
    return np.rint(np.clip(a, -2e4, 2e4) * 1e5).astype(int).tolist()


def tokens(r, n):
    return [r.randint(1, nets.VOCAB - 1) for _ in range(n)]


def packing(r, n, m, packed):
    """[(decoder length, encoder length)] of the examples of a row."""
    if not packed:
        return [(r.randint(1, n), r.randint(1, m))]
    out = []
    while True:
        d, e = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3])
        if sum(x for x, _ in out) + d > n or sum(y for _, y in out) + e > m:
            return out
        out.append((d, e))
        if len(out) > 1 and r.random() < .2:
            return out


def place(exs, n, m):
    """Segments and positions of a row."""
    seg, pos, eseg, epos = [], [], [], []
    for i, (d, e) in enumerate(exs):
        seg += [i + 1] * d
        pos += list(range(d))
        eseg += [i + 1] * e
        epos += list(range(e))
    z = lambda a, k: a + [0] * (k - len(a))
    return z(seg, n), z(pos, n), z(eseg, m), z(epos, m)


def row(r, arch, packed, exs=None):
    ed = nets.encdec(arch)
    exs = exs or packing(r, N, E if ed else 99, packed)
    seg, pos, eseg, epos = place(exs, N, E if ed else 99)
    tg = [r.randint(1, nets.VOCAB - 1) if s else 0 for s in seg]
    inp = [0 if p == 0 else tg[i - 1] for i, p in enumerate(pos)]
    inp = [x if s else r.choice([0, r.randint(1, nets.VOCAB - 1)]) for x, s in zip(inp, seg)]
    bi = [False] * N
    if arch == 'prefix':
        at = 0
        for d, _ in exs:
            k = r.randint(1, d)     # the start token and a prompt
            bi[at:at + k] = [True] * k
            at += d
    b = dict(decoder_input_tokens=inp, decoder_target_tokens=tg)
    if packed:
        b['decoder_segment_ids'], b['decoder_positions'] = seg, pos
    if arch == 'prefix':
        b['decoder_causal_attention'] = [int(x) for x in bi]
    if ed:
        b['encoder_input_tokens'] = [r.randint(1, nets.VOCAB - 1) if s else 0 for s in eseg]
        if packed:
            b['encoder_segment_ids'], b['encoder_positions'] = eseg, epos
    return b, exs


def stack(rows):
    import numpy as np
    return {k: np.asarray([b[k] for b in rows], np.int32) for k in rows[0]}


def spec_row(arch, b):
    n = len(b['decoder_input_tokens'])
    packed = 'decoder_segment_ids' in b
    seg = b.get('decoder_segment_ids', [0] * n)
    bi = b.get('decoder_causal_attention', [0] * n)
    enc = b.get('encoder_input_tokens', [])
    es = b.get('encoder_segment_ids', [0] * len(enc))
    return dict(dec=[dict(real=t > 0, seg=s, bi=bool(x)) for t, s, x in zip(b['decoder_target_tokens'], seg, bi)],
                enc=[dict(real=t > 0, seg=s) for t, s in zip(enc, es)],
                bidir=arch == 'prefix', packed=packed, layers=nets.LAYERS)


def other(t, by=1):
    return (t - 1 + by) % (nets.VOCAB - 1) + 1


def deps(r, arch, num):
    """How outputs change with single tokens."""
    import numpy as np
    out = []
    ed = nets.encdec(arch)
    for _ in range(num):
        emb = r.random() < .3
        p = nets.params(arch, emb, r)
        b, _ = row(r, arch, r.random() < .6)
        edits = [('decoder_input_tokens', j) for j in range(N)] + [('decoder_target_tokens', j) for j in range(N)]
        if ed:
            edits += [('encoder_input_tokens', k) for k in range(E)]
        rows = [b]
        for by in (1, 3):
            for k, j in edits:
                x = dict(b, **{k: list(b[k])})
                if k == 'decoder_input_tokens' or x[k][j]:
                    x[k][j] = other(x[k][j] or 1, by)
                rows.append(x)
        lg = np.asarray(nets.full_fn(arch, emb)(p, stack(rows)))
        assert lg.shape == (len(rows), N, nets.VOCAB), lg.shape
        d = np.abs(lg - lg[:1]).max(-1)[1:].reshape(2, len(edits), N).max(0)       # edit, output
        d = np.nan_to_num(d, nan=9.)
        lev = np.where(d < 1e-4, 0, np.where(d > 2e-3, 2, 1)).T.tolist()
        out.append(dict(kind='dep', exact=True, fromdec=[x[:N] for x in lev], fromtgt=[x[N:2 * N] for x in lev],
                        fromenc=[x[2 * N:] for x in lev], **spec_row(arch, b)))
    return out


def alone(r, arch, num):
    """Packed examples give what they give alone; rows are independent."""
    import numpy as np
    out = []
    ed = nets.encdec(arch)
    for _ in range(num):
        emb = r.random() < .3
        p = nets.params(arch, emb, r)
        rows, singles, want = [], [], []
        for ri in range(3):
            b, exs = row(r, arch, True)
            rows.append(b)
            at = eat = 0
            for d, e in exs:
                if len(singles) < 12:
                    one = {}
                    for k, v in b.items():
                        enc = k.startswith('encoder')
                        w, lo, ln = (E, eat, e) if enc else (N, at, d)
                        if not k.endswith('_ids') and not k.endswith('_positions'):
                            one[k] = v[lo:lo + ln] + [0] * (w - ln)
                    singles.append(one)
                    want.append((ri, at, d))
                at, eat = at + d, eat + e
        while len(singles) < 12:
            singles.append(singles[0])
        f = nets.full_fn(arch, emb)
        lg, ls = np.asarray(f(p, stack(rows))), np.asarray(f(p, stack(singles)))
        got, ref = [], []
        for (ri, at, d), l in zip(want, ls):
            got += fix(lg[ri, at:at + d])
            ref += fix(l[:d])
        out.append(dict(kind='same', got=got, want=ref))
    return out


def forced(index):
    """A decoding function that follows given sequences and returns all logits."""
    import jax
    import jax.numpy as jnp
    from t5x import decoding

    def go(inputs, cache, tokens_to_logits, num_decodes, cache_offset, follow, initial_index):
        B, n = inputs.shape
        cache = decoding.cache_map(
            lambda x: decoding.flat_batch_beam_expand(x, num_decodes, offset=cache_offset), cache,
            apply_to_index=initial_index is not None)
        seqs = follow.reshape(B * num_decodes, n)
        start = jnp.zeros((B,), jnp.int32) if initial_index is None else initial_index
        start = jnp.repeat(start, num_decodes)

        def step(carry, s):
            cache, acc = carry
            at = jnp.minimum(start + s, n - 1)
            cur = jnp.take_along_axis(seqs, at[:, None], axis=1)
            st = decoding.DecodingState(cur_index=at, sequences=seqs, cur_token=cur, cache=cache)
            lg, new = tokens_to_logits(st)
            live = (start + s < n)[:, None, None]
            hot = (jnp.arange(n)[None, :] == at[:, None])[:, :, None] & live
            acc = jnp.where(hot, lg.astype(jnp.float32)[:, None, :], acc)
            return (new, acc), None
        acc = jnp.zeros((B * num_decodes, n, nets.VOCAB))
        (_, acc), _ = jax.lax.scan(step, (cache, acc), jnp.arange(n))
        return seqs.reshape(B, num_decodes, n), acc.reshape(B, num_decodes, n, -1)

    if index:
        def fn(*, inputs, cache, tokens_to_logits, eos_id, num_decodes, cache_offset, follow, initial_index=None,
               decode_rng=None):
            return go(inputs, cache, tokens_to_logits, num_decodes, cache_offset, follow, initial_index)
    else:
        def fn(*, inputs, cache, tokens_to_logits, eos_id, num_decodes, cache_offset, follow, decode_rng=None):
            return go(inputs, cache, tokens_to_logits, num_decodes, cache_offset, follow, None)
    return fn


def prompts(r, arch, B, full=False):
    """Rows of one example each, with a prompt of inputs for decoder-only models."""
    rows, known = [], []
    for _ in range(B):
        b, _ = row(r, 'prefix' if not nets.encdec(arch) else arch, False, exs=[(N, r.randint(1, E))])
        b['decoder_input_tokens'] = [0] + [r.randint(2, nets.VOCAB - 1) for _ in range(N - 1)]
        b['decoder_target_tokens'] = b['decoder_input_tokens'][1:] + [EOS_]
        k = 0
        if not nets.encdec(arch):
            k = r.choice([1, 2, N - 2, r.randint(1, N - 1)])
            b['decoder_causal_attention'] = [1] * (k + 1) + [0] * (N - 1 - k)
        rows.append(b)
        known.append(k)
    return rows, known


EOS_ = 1
_jit = {}


def jitted(key, make):
    import jax
    if key not in _jit:
        _jit[key] = jax.jit(make())
    return _jit[key]


def whole(arch, emb, p, rows, seqs):
    """Logits of whole sequences (inputs), shape of seqs [B, D, N]."""
    import numpy as np
    B, D, n = seqs.shape
    b = {}
    for k, v in stack(rows).items():
        b[k] = np.repeat(v, D, axis=0)
    b['decoder_input_tokens'] = seqs.reshape(B * D, n).astype(np.int32)
    b['decoder_target_tokens'] = np.ones((B * D, n), np.int32)
    if arch != 'prefix':
        b.pop('decoder_causal_attention', None)
    lg = np.asarray(nets.full_fn(arch, emb)(p, b))
    return lg.reshape(B, D, n, -1)


def steps(r, arch, num):
    """Cached step-by-step logits along given sequences."""
    import numpy as np
    out = []
    B = 3
    for _ in range(num):
        emb = r.random() < .3
        D = r.choice([1, 3])
        p = nets.params(arch, emb, r)
        rows, known = prompts(r, arch, B)
        index = not nets.encdec(arch) or r.random() < .5
        seqs = np.asarray([[b['decoder_input_tokens'][:k + 1] + tokens(r, N - 1 - k) for _ in range(D)]
                           for b, k in zip(rows, known)], np.int32)

        def make():
            m = nets.model(arch, nets.module(arch, emb), forced(index))
            return lambda p, b, f: m.predict_batch_with_aux(
                p, b, num_decodes=D, return_all_decodes=True, decoder_params=dict(follow=f))
        _, aux = jitted((arch, 'steps', emb, D, index), make)(p, stack(rows), seqs)
        got = np.asarray(aux['scores'])
        want = whole(arch, emb, p, rows, seqs)
        g, w = [], []
        for i in range(B):
            g += fix(got[i, :, known[i]:].reshape(-1, nets.VOCAB))
            w += fix(want[i, :, known[i]:].reshape(-1, nets.VOCAB))
        out.append(dict(kind='same', got=g, want=w))
    return out


def handed(r, arch, num):
    """What the models hand to a decoding function and make of its answer."""
    import numpy as np
    import jax.numpy as jnp
    out = []
    ed = nets.encdec(arch)
    for _ in range(num):
        p = nets.params(arch, False, r)
        B = 2
        rows, known = prompts(r, arch, B)
        for b, k in zip(rows, known):
            if ed:      # prompts may hold an end token
                k = r.randint(0, N - 1)
                b['decoder_input_tokens'] = [0] + tokens(r, k) + [0] * (N - 1 - k)
            else:
                b['decoder_input_tokens'] = [0] + tokens(r, k) + \
                    [r.randint(0, nets.VOCAB - 1) for _ in range(N - 1 - k)]
        D = r.choice([1, 2, 3])
        width = N
        ans = np.asarray([[[r.randint(0, nets.VOCAB - 1) for _ in range(width)] for _ in range(D)] for _ in range(B)], np.int32)
        sc = np.asarray([[r.randint(-1000, 0) for _ in range(D)] for _ in range(B)], np.float32)
        seen = {}

        def fn(*, inputs, cache, tokens_to_logits, eos_id, num_decodes, cache_offset, initial_index=None, decode_rng=None):
            seen.update(inputs=inputs, index=initial_index, eos=eos_id, decodes=num_decodes, rng=decode_rng,
                        offset=cache_offset)
            return jnp.asarray(ans), jnp.asarray(sc)
        m = nets.model(arch, nets.module(arch), fn)
        kw = dict(num_decodes=D, return_all_decodes=r.random() < .5)
        if ed:
            kw['prompt_with_targets'] = r.random() < .7
        res, aux = m.predict_batch_with_aux(p, stack(rows), **kw)
        res, s = np.asarray(res), np.asarray(aux['scores'])
        assert seen['eos'] == EOS_ and seen['decodes'] == D and seen['offset'] == int(arch in ('scan', 'remat')), seen
        # what a row of all decodes looks like, or the best one
        for i, b in enumerate(rows):
            all_ = kw['return_all_decodes']
            out.append(dict(kind='prompt', arch='encdec' if ed else 'dec', input=b['decoder_input_tokens'], eos=EOS_,
                            bi=[bool(x) for x in b.get('decoder_causal_attention', [0] * N)],
                            **{'with': bool(kw.get('prompt_with_targets'))},
                            prompt=np.asarray(seen['inputs'])[i].tolist(),
                            index=-1 if seen['index'] is None else int(np.asarray(seen['index'])[i]),
                            answers=ans[i].tolist(), given=[int(x) for x in sc[i]], all=all_,
                            result=res[i].tolist() if all_ else [res[i].tolist()],
                            scores=[int(x) for x in np.atleast_1d(s[i])]))
    return out


def decoded(r, arch, num):
    """Sampling and beam search with the real networks."""
    import functools
    import jax
    import numpy as np
    from t5x import decoding
    out = []
    ed = nets.encdec(arch)
    B = 3
    for _ in range(num):
        how = r.choice(['greedy', 'sample', 'beam'])
        D = 1 if how == 'greedy' else r.choice([2, 3])
        emb = False
        p = nets.params(arch, emb, r)
        rows, known = prompts(r, arch, B)
        kw = {}
        if ed and how != 'beam' and r.random() < .6:    # prompts of targets
            kw['prompt_with_targets'] = True
            for i, b in enumerate(rows):
                known[i] = r.randint(0, N - 1)
                b['decoder_input_tokens'] = b['decoder_input_tokens'][:known[i] + 1] + [0] * (N - 1 - known[i])

        def make():
            if how == 'beam':
                fn = functools.partial(decoding.beam_search, alpha=0.0)
            else:
                fn = functools.partial(decoding.temperature_sample, temperature=0.0 if how == 'greedy' else 1.0,
                                       topk=1 if how == 'greedy' else 0, rescale_log_probs=False)
            m = nets.model(arch, nets.module(arch, emb), fn)
            return lambda p, b, k: m.predict_batch_with_aux(p, b, rng=None if how == 'beam' else k, num_decodes=D,
                                                            return_all_decodes=True, **kw)
        res, aux = jitted((arch, how, emb, D, tuple(sorted(kw))), make)(
            p, stack(rows), jax.random.PRNGKey(r.randrange(2**31)))
        res, sc = np.asarray(res), np.asarray(aux['scores'])
        assert res.shape == (B, D, N), res.shape
        if not ed:      # answers come without their prompts
            for i, b in enumerate(rows):
                assert not res[i, :, N - known[i]:].any(), res[i]
            res = np.stack([np.concatenate([np.tile(b['decoder_input_tokens'][1:k + 1], (D, 1)), res[i, :, :N - k]], 1)
                            for i, (b, k) in enumerate(zip(rows, known))])
        seqs = np.concatenate([np.zeros((B, D, 1), int), res[:, :, :-1]], -1)
        lg = whole(arch, emb, p, rows, seqs).astype(np.float64)
        lp = lg - np.log(np.exp(lg - lg.max(-1, keepdims=True)).sum(-1, keepdims=True)) - lg.max(-1, keepdims=True)
        for i, b in enumerate(rows):
            for d in range(D):
                if sc[i, d] < -1e6:     # a slot without hypothesis
                    continue
                out.append(dict(kind='decode', toks=res[i, d].tolist(), known=known[i], eos=EOS_, greedy=how == 'greedy',
                                prompt=b['decoder_input_tokens'][1:] + [0],
                                # beam search shows longer prompts' answers cut short
                                cut=how == 'beam' and not ed and known[i] > min(known),
                                score=fix(sc[i, d]), lp=fix(lp[i, d])))
    return out


def cases(item):
    what, arch, seed, num = item
    return globals()[what](random.Random('%s %s %d' % (what, arch, seed)), arch, num)


def run(chk):
    st = tlc.check('AttentionMC', cfg(spec='Spec', constants=dict(MaxLen=chk.n(4, 6), Layers=chk.n(2, 3)),
                                      invariants=['SameOutputs', 'NoHoles'], properties=['Done']))
    chk.spec('AttentionMC', st)
    st = tlc.check('AttentionMaskMC', cfg(spec='Spec', constants=dict(MaxDec=chk.n(4, 5), MaxEnc=chk.n(3, 4), Layers=chk.n(2, 3)),
                                          invariants=['Inside', 'Causal', 'Full', 'Same'], properties=['Done']))
    chk.spec('AttentionMaskMC', st)
    items = []
    for arch in nets.ARCHS:
        for w, n in (('steps', 3), ('decoded', 3), ('deps', 4), ('alone', 3), ('handed', 3)):
            if arch == 'remat' and w in ('handed', 'alone'):
                continue
            items.append((w, arch, chk.seed, chk.n(n, 25 * n)))
    allc = []
    for it, c in zip(items, pool.pmap(chk, 'harness.checks.c19', 'cases', items, procs=8, devices=1)):
        allc += [(it[:2], x) for x in c or []]
    bad, n = tlc.judge('Attention', [c for _, c in allc], op='Ok')
    for b in bad:
        what, c = allc[b]
        chk.violation('%s %s %s' % (*what, b), '%s: %s' % (what, c), c)
    chk.validated(n, allc[-1][1] if allc else None)
    import collections
    chk.note(cases={'%s %s' % k: v for k, v in collections.Counter(w for w, _ in allc).items()})
