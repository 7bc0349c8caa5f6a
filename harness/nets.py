"""Tiny versions of the shipped networks, as modules and models."""
import functools

VOCAB = 7
EOS = 1
LAYERS = 2
ARCHS = ['t5', 'scan', 'noscan', 'remat', 'gpu', 'dec', 'prefix']


def vocabulary():
    import seqio

    class V(seqio.PassThroughVocabulary):
        @property
        def eos_id(self):
            return EOS
    return V(size=VOCAB)


def module(arch, emb=False):
    from harness import env
    env.scan_shim()
    base = dict(vocab_size=VOCAB, emb_dim=8, num_heads=2, head_dim=4, mlp_dim=8, logits_via_embedding=emb)
    if arch in ('dec', 'prefix'):
        from t5x.examples.decoder_only import network
        return network.DecoderWrapper(network.TransformerConfig(num_layers=LAYERS, **base))
    base.update(num_encoder_layers=LAYERS, num_decoder_layers=LAYERS)
    if arch == 't5':
        from t5x.examples.t5 import network
    elif arch == 'gpu':
        from t5x.contrib.gpu.t5 import network
    else:
        from t5x.examples.scalable_t5 import network
        base.update(scan_layers=arch != 'noscan', remat_policy='minimal' if arch == 'remat' else 'none')
    return network.Transformer(network.T5Config(**base))


def encdec(arch):
    return arch not in ('dec', 'prefix')


def model(arch, mod, decode_fn):
    from t5x import models
    v = vocabulary()
    if encdec(arch):
        return models.EncoderDecoderModel(mod, v, v, None, decode_fn=decode_fn)
    return models.DecoderOnlyModel(mod, v, None, decode_fn=decode_fn,
                                   inputs_bidirectional_attention=arch == 'prefix')


@functools.lru_cache(None)
def base_params(arch, emb):
    import jax
    import jax.numpy as jnp
    mod = module(arch, emb)
    d = jnp.ones((2, 4), jnp.int32)
    args = (d, d, d) if encdec(arch) else (d, d)
    v = jax.jit(lambda k: mod.init(k, *args, enable_dropout=False))(jax.random.PRNGKey(7))
    return jax.tree_util.tree_map(lambda x: x, dict(v)['params'])


def params(arch, emb, r):
    """Random parameters."""
    import jax
    import numpy as np
    rs = np.random.RandomState(r.randrange(2**31))
    return jax.tree_util.tree_map(
        lambda x: np.asarray(np.asarray(x) + .3 * rs.standard_normal(x.shape) * (np.std(x) + .05), np.float32),
        base_params(arch, emb))


@functools.lru_cache(None)
def full_fn(arch, emb):
    """Jitted logits of whole sequences; batch has encoder_*, decoder_* features."""
    import jax
    mod = module(arch, emb)

    @functools.partial(jax.jit, static_argnums=(2,))
    def fn(p, b, names):
        return mod.apply({'params': p}, **{k: b[k] for k in names}, enable_dropout=False, decode=False)

    def call(p, b):
        return fn(p, b, tuple(sorted(b)))
    return call
