"""C20: the loss counts exactly the weighted target tokens.

Losses, their gradients, metrics and scores of random batches under every
option, taken from the functions and from whole models, are judged by TLC
(spec/Loss.tla); spec/LossMC.tla has the properties of that loss and the two
passes that sum the weights of packed examples.
"""
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

MODES = ['none', 'const', 'real', 'total', 'avg']
NAMES = dict(real='NUM_REAL_TARGET_TOKENS', total='NUM_TOTAL_TARGET_TOKENS', avg='AVERAGE_PER_SEQUENCE')


def options(r, packed=None):
    o = dict(mode=r.choice(MODES + ['avg', 'avg']), fn=r.choice([1, 3, 8, 50]), fd=r.choice([1, 2, 4]),
             weighted=r.random() < .6, packed=r.random() < .5 if packed is None else packed,
             sk=r.choice([0, 0, 1, 3]), sd=r.choice([4, 10]), zd=r.choice([0, 0, 8, 100, 10000]))
    return o


def layout(r, n, packed, gaps=False):
    """Packed example and position of every place of one row."""
    seg, pos, s = [], [], 0
    full = r.random() < .3
    if packed:
        while len(seg) < n and (not seg or full or r.random() < .75):
            s += 2 if gaps and r.random() < .3 else 1
            for p in range(min(r.choice([1, 1, 2, 3, 4]), n - len(seg))):
                seg.append(s)
                pos.append(p)
    else:
        seg = [1] * (n if full else r.randint(0, n))
        pos = list(range(len(seg)))
    pad = n - len(seg)
    return seg + [0] * pad, pos + [0] * pad


def batch(r, o, zeros=True):
    V = r.choice([2, 2, 3, 5])
    big = r.random() < .15 and o['zd'] in (0, 10000)
    while True:
        B, n = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 5, 8])
        rows, poss = [], []
        for _ in range(B):
            seg, pos = layout(r, n, o['packed'], gaps=r.random() < .3)
            row = []
            dead = set(s for s in set(seg) if r.random() < .15)
            for s in seg:
                pad = s == 0
                # classes of real tokens are not 0, except where weights are given
                t = 0 if pad else r.randint(0 if zeros and o['weighted'] and r.random() < .2 else 1, V - 1)
                q = 0 if pad or s in dead else r.choice([4, 4, 0, 1, 2, 3, 8])
                if not o['weighted']:
                    q = 0 if t == 0 else 4
                row.append(dict(w=[r.randint(1, 30 // V) for _ in range(V)],
                                c=r.choice([80, -80, 30]) if big else r.choice([-2, -1, 0, 0, 1]),
                                t=t, q=q, seg=s if o['packed'] else 0))
            rows.append(row)
            poss.append(pos)
        if sum(k['q'] for row in rows for k in row) > 0:
            return rows, poss


def arrays(rows, poss, o):
    import numpy as np
    lg = np.asarray([[[np.log(w) + k['c'] for w in k['w']] for k in row] for row in rows], np.float32)
    t = np.asarray([[k['t'] for k in row] for row in rows], np.int32)
    b = dict(decoder_target_tokens=t, decoder_input_tokens=np.roll(t, 1, 1))
    if o['weighted']:
        b['decoder_loss_weights'] = np.asarray([[k['q'] / 4 for k in row] for row in rows], np.float32)
    if o['packed']:
        b['decoder_segment_ids'] = np.asarray([[k['seg'] for k in row] for row in rows], np.int32)
        b['decoder_positions'] = np.asarray(poss, np.int32)
    return lg, b


def factor(r, o):
    from t5x import losses
    if o['mode'] == 'none':
        return None
    if o['mode'] == 'const':
        v = o['fn'] / o['fd']
        return int(v) if v == int(v) and r.random() < .5 else v
    n = NAMES[o['mode']]
    return r.choice([n, n.lower(), n.title(), losses.SpecialLossNormalizingFactor[n]])


def fix(v):
    import numpy as np
    v = float(v)
    if not np.isfinite(v) or abs(v) > 2e4:
        return 2 * 10**9
    return int(round(v * 1e5))


def fixed(a):
    return [[[fix(x) for x in tok] for tok in row] for row in a]


def spread(r, arrs, shard):
    """Arrays, possibly laid out over devices."""
    import jax
    import jax.numpy as jnp
    if not shard:
        return [jnp.asarray(a) for a in arrs]
    from jax.sharding import NamedSharding, PartitionSpec as P
    from harness import zoo
    mesh = zoo.mesh_of(2, 2)
    out = []
    for a in arrs:
        spec = ['data' if a.shape[0] % 2 == 0 else None] + [None] * (a.ndim - 1)
        if a.ndim == 3 and a.shape[2] % 2 == 0:
            spec[2] = 'model'
        out.append(jax.device_put(a, NamedSharding(mesh, P(*spec))))
    return out


def sums(r, num):
    """losses.py on its own."""
    import jax
    import numpy as np
    from t5x import losses
    out = []
    for _ in range(num):
        o = options(r)
        rows, poss = batch(r, o)
        lg, b = arrays(rows, poss, o)
        f = factor(r, o)
        keys = sorted(b)

        def loss(lg, *vals):
            bb = dict(zip(keys, vals))
            nf, w = losses.get_loss_normalizing_factor_and_weights(f, bb)
            l, z, ws = losses.compute_weighted_cross_entropy(
                lg, bb['decoder_target_tokens'], w, o['sk'] / o['sd'], 1 / o['zd'] if o['zd'] else 0.0, nf)
            return l, (z, ws)
        fn = jax.value_and_grad(loss, has_aux=True)
        if r.random() < .4:
            fn = jax.jit(fn)
        vals = spread(r, [lg] + [b[k] for k in keys], r.random() < .3)
        (l, (z, ws)), g = fn(*vals)
        if r.random() < .3:     # without differentiation
            l, (z, ws) = loss(*vals)
        assert g.shape == lg.shape, g.shape
        raw = o['mode'] != 'avg' and (o['weighted'] or not o['mode'] in NAMES)
        out.append(dict(kind='sum', o=o, b=rows, loss=fix(l), z=fix(z), weights=fix(ws) if raw else -1,
                        grad=fixed(np.asarray(g))))
    return out


def tiny(encdec):
    import jax.numpy as jnp
    from flax import linen as nn

    class Enc(nn.Module):
        shape: tuple

        @nn.compact
        def __call__(self, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, *, decode=False,
                     enable_dropout=True, **kw):
            for k in ('encoder_segment_ids', 'decoder_segment_ids'):
                assert (kw.get(k) is None) == (kw.get('decoder_positions') is None), kw.keys()
            lg = self.param('logits', nn.initializers.zeros, self.shape, jnp.float32)
            assert decoder_target_tokens.shape == self.shape[:2]
            self.sow('intermediates', 'seen', decoder_input_tokens)
            return lg

    class Dec(nn.Module):
        shape: tuple

        @nn.compact
        def __call__(self, decoder_input_tokens, decoder_target_tokens, *, decode=False, enable_dropout=True, **kw):
            lg = self.param('logits', nn.initializers.zeros, self.shape, jnp.float32)
            self.sow('intermediates', 'seen', decoder_input_tokens)
            return lg
    return Enc if encdec else Dec


def build(r, encdec, o, shape):
    import seqio
    from t5x import models
    v = seqio.PassThroughVocabulary(size=shape[-1])
    kw = dict(module=tiny(encdec)(shape), optimizer_def=None, label_smoothing=o['sk'] / o['sd'],
              z_loss=1 / o['zd'] if o['zd'] else 0.0, loss_normalizing_factor=factor(r, o))
    if encdec:
        return models.EncoderDecoderModel(input_vocabulary=v, output_vocabulary=v, **kw)
    return models.DecoderOnlyModel(vocabulary=v, **kw)


def encoder(r, b, packed):
    """Inputs of an encoder, whose examples may differ from the targets'."""
    import numpy as np
    B = b['decoder_target_tokens'].shape[0]
    n = r.choice([1, 3, 6])
    rows = [layout(r, n, packed, gaps=True) for _ in range(B)]
    seg = np.asarray([s for s, _ in rows], np.int32)
    b['encoder_input_tokens'] = np.where(seg != 0, seg + 1, 0).astype(np.int32)
    if packed:
        b['encoder_segment_ids'] = seg
        b['encoder_positions'] = np.asarray([p for _, p in rows], np.int32)


def one_model(r):
    encdec = r.random() < .5
    o = options(r)
    rows, poss = batch(r, o, zeros=o['packed'])
    lg, b = arrays(rows, poss, o)
    if encdec:
        encoder(r, b, o['packed'])
    return encdec, o, rows, lg, b


def whole(r, num):
    """The loss of whole models, with its metrics."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from t5x import metrics as metrics_lib
    out = []
    for _ in range(num):
        encdec, o, rows, lg, b = one_model(r)
        m = build(r, encdec, o, lg.shape)
        p = {'logits': jnp.asarray(lg)}
        jb = {k: jnp.asarray(v) for k, v in b.items()}
        rng = jax.random.PRNGKey(0) if r.random() < .5 else None
        fn = jax.value_and_grad(lambda p, jb: m.loss_fn(p, jb, rng), has_aux=True)
        if r.random() < .4:
            fn = jax.jit(fn)
        (l, ms), g = fn(p, jb)
        if r.random() < .3:
            l, ms = m.eval_fn(p, jb)
        ms = metrics_lib.set_step_metrics_num_steps(ms, 1)
        val = lambda k: float(np.asarray(ms[k].compute()))
        feats = []
        names = [k[:-len('_segment_ids')] for k in b if k.endswith('_segment_ids')]
        ids = {k: b[k + '_segment_ids'] for k in names}
        if not names:
            ids = {k: (b[k] != 0).astype(int) for k in ('encoder_input_tokens', 'decoder_target_tokens') if k in b}
        for k, v in ids.items():
            feats.append(dict(ids=v.tolist(), examples=int(round(val('effective_batch_size/' + k))),
                              fraction=fix(val('non_padding_fraction/' + k))))
        assert {k for k in ms if k.startswith('effective_batch_size/')} == {'effective_batch_size/' + k for k in ids}
        out.append(dict(kind='model', o=o, b=rows, loss=fix(l), grad=fixed(np.asarray(g['logits'])),
                        metrics=dict(loss=fix(val('loss')), z=fix(val('z_loss')), cross=fix(val('cross_ent_loss')),
                                     per_token=fix(val('loss_per_all_target_tokens')),
                                     per_weight=fix(val('loss_per_nonpadding_target_token')),
                                     overall=fix(val('non_padding_fraction/overall')), features=feats)))
    return out


def scores(r, num):
    import jax
    import jax.numpy as jnp
    import numpy as np
    out = []
    for _ in range(num):
        encdec, o, rows, lg, b = one_model(r)
        o['weighted'] = True
        b['decoder_loss_weights'] = np.asarray([[k['q'] / 4 for k in row] for row in rows], np.float32)
        m = build(r, encdec, o, lg.shape)
        p = {'logits': jnp.asarray(lg)}
        jb = {k: jnp.asarray(v) for k, v in b.items()}
        more = r.random() < .4
        s = jax.jit(lambda p, jb: m.score_batch(p, jb, return_intermediates=more))(p, jb)
        if more:
            s, inter = s
            toks = np.asarray(inter['decoder']['token_scores'][0])
            assert np.allclose(toks.sum(-1), np.asarray(s), atol=1e-4)
            assert np.array_equal(inter['decoder']['target_tokens'][0], b['decoder_target_tokens'])
            assert np.array_equal(inter['decoder']['loss_weights'][0], b['decoder_loss_weights'])
            assert np.array_equal(inter['seen'][0], b['decoder_input_tokens'])
            for row, ts in zip(rows, toks):     # single tokens as rows
                out.append(dict(kind='score', b=[[k] for k in row], score=[fix(t) for t in ts]))
        assert s.shape == lg.shape[:1], s.shape
        out.append(dict(kind='score', b=rows, score=[fix(x) for x in np.asarray(s)]))
    return out


def errors(r, num):
    import jax.numpy as jnp
    import numpy as np
    from t5x import losses
    out = []

    def attempt(fn, expect):
        try:
            fn()
            raised = 'none'
        except ValueError:
            raised = 'ValueError'
        out.append(dict(kind='error', raised=raised, expect=expect))
    tok = jnp.asarray([[1, 2, 0]])
    for name in list(NAMES.values()) + ['NUM_TARGET_TOKENS', '', 'average', 'AVERAGE_PER_SEQUENCES', '1', 'NONE',
                                        ' NUM_REAL_TARGET_TOKENS']:
        attempt(lambda: losses.get_loss_normalizing_factor_and_weights(name, {'decoder_target_tokens': tok}),
                'none' if name in NAMES.values() else 'ValueError')
        attempt(lambda: losses.convert_special_loss_normalizing_factor_to_enum(name),
                'none' if name in NAMES.values() else 'ValueError')
    for ls, ts in [((2, 3, 4), (2, 3)), ((2, 3), (2, 3)), ((2, 3, 4), (2, 3, 4)), ((2, 3, 4), (6,)), ((6, 4), (6,))]:
        attempt(lambda: losses.compute_weighted_cross_entropy(jnp.zeros(ls), jnp.zeros(ts, jnp.int32)),
                'none' if len(ls) == len(ts) + 1 else 'ValueError')
    return out


def cases(item):
    what, seed, num = item
    return globals()[what](random.Random('%s %d' % (what, seed)), num)


def run(chk):
    st = tlc.check('LossMC', cfg(
        spec='Spec', constants=dict(MaxLen=chk.n(3, 4), Qs=Raw('{0, 4}' if not chk.thorough else '{0, 1, 4}'),
                                    Modes=Raw('{"none", "const", "real", "total", "avg"}')),
        invariants=['Summed', 'Independent', 'ScaleFree', 'PackingFree', 'Tangent'], properties=['Done']),
        timeout=800)
    chk.spec('LossMC', st)
    items = [(w, chk.seed * 100 + j, chk.n(n, 10 * n)) for w, n, k in (
        ('sums', 22, 3), ('whole', 14, 3), ('scores', 14, 1)) for j in range(k)]
    items.append(('errors', 0, 1))
    allc = []
    for it, c in zip(items, pool.pmap(chk, 'harness.checks.c20', 'cases', items, procs=8, devices=4)):
        allc += [(it[0], x) for x in c or []]
    bad, n = tlc.judge('Loss', [c for _, c in allc], op='Ok')
    for b in bad:
        what, c = allc[b]
        chk.violation('%s %s' % (what, b), '%s: %s' % (what, c), c)
    chk.validated(n, allc[-1][1] if allc else None)
    chk.note(cases={w: sum(a == w for a, _ in allc) for w in ('sums', 'whole', 'scores', 'errors')})
