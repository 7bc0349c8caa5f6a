"""C29: importing a T5 checkpoint of Mesh TensorFlow puts every tensor in its place.

Checkpoints of generated architectures are written with TensorFlow, imported through
every path of the real importer and judged by spec/T5ImportCases.tla.
"""
import os
import random
import shutil
import tempfile

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 8
NORMS = ['layer_norm', 'rms_norm']


def arch_of(r, net=False):
    a = dict(kind=r.choice(['encdec', 'encdec', 'lm']), enc=r.choice([1, 2, 3, 11]), dec=r.choice([1, 1, 2, 3, 12]),
             shared=r.random() < .7, own=r.random() < .4, gated=r.random() < .5, logits=r.random() < .5,
             norm=r.choice(NORMS), final=r.choice(['final_layer_norm', 'rms_norm']))
    if net:
        a.update(kind='encdec', enc=r.choice([1, 2]), dec=r.choice([1, 2]), shared=True, own=False)
    if a['kind'] == 'lm':
        a['enc'] = 0
    if max(a['enc'], a['dec']) == 1:
        a['own'] = False        # one layer: its bias is taken for a shared one
    return a


def names(a):
    """(name in TensorFlow, name here, kind) of every parameter."""
    out = []
    towers = [('transformer', 'decoder')] if a['kind'] == 'lm' else [('encoder', 'encoder'), ('decoder', 'decoder')]
    if a['shared']:
        out.append(('shared/embedding', 'token_embedder/embedding'))
    for tf, t in towers:
        if not a['shared']:
            out.append((tf + '/embedding', t + '/token_embedder/embedding'))
        subs = [('SelfAttention', 'attention' if t == 'encoder' else 'self_attention')]
        if a['kind'] == 'encdec' and t == 'decoder':
            subs.append(('EncDecAttention', 'encoder_decoder_attention'))
        for i in range(a['enc'] if t == 'encoder' else a['dec']):
            b, h = '%s/block_%03d' % (tf, i), '%s/layers_%d' % (t, i)
            for j, (x, y) in enumerate(subs):
                kind = 'cross_attention' if 'enc' in y else y
                out.append(('%s/layer_%03d/%s/scale' % (b, j, a['norm']), '%s/pre_%s_layer_norm/scale' % (h, kind)))
                for p, q in zip('qkvo', ('query', 'key', 'value', 'out')):
                    out.append(('%s/layer_%03d/%s/%s' % (b, j, x, p), '%s/%s/%s/kernel' % (h, y, q)))
            j = len(subs)
            out.append(('%s/layer_%03d/%s/scale' % (b, j, a['norm']), h + '/pre_mlp_layer_norm/scale'))
            for w in (['wi_0', 'wi_1'] if a['gated'] else ['wi']) + ['wo']:
                out.append(('%s/layer_%03d/DenseReluDense/%s/kernel' % (b, j, w), '%s/mlp/%s/kernel' % (h, w)))
            if i == 0 or a['own']:
                out.append((b + '/layer_000/SelfAttention/relative_attention_bias',
                            (h if a['own'] else t) + '/relpos_bias/rel_embedding'))
        out.append(('%s/%s/scale' % (tf, a['final']), '%s/%s_norm/scale' % (t, t)))
    if a['logits']:
        out.append((towers[-1][0] + '/logits/kernel', 'decoder/logits_dense/kernel'))
    return out


def write(path, tensors):
    import tensorflow as tf
    k = sorted(tensors)
    tf.raw_ops.SaveV2(prefix=path, tensor_names=k, shape_and_slices=[''] * len(k), tensors=[tf.constant(tensors[n]) for n in k])


def network_state(a, r):
    """Shapes of the train state of the shipped network."""
    import flax
    import jax
    import jax.numpy as jnp
    from t5x import adafactor, train_state as ts
    from t5x.examples.t5 import network as n
    c = n.T5Config(vocab_size=16, emb_dim=4, num_heads=2, num_encoder_layers=a['enc'], num_decoder_layers=a['dec'], head_dim=2, mlp_dim=8,
                   mlp_activations=('gelu', 'linear') if a['gated'] else ('relu',), logits_via_embedding=not a['logits'], dtype=jnp.float32)
    x = jnp.ones((1, 3), jnp.int32)
    opt = adafactor.Adafactor(.1, logical_factor_rules=adafactor.standard_logical_factor_rules() if r.random() < .7 else None,
                              factored=r.random() < .8, min_dim_size_to_factor=r.choice([1, 8, 128]))

    def make(k):
        return ts.FlaxOptimTrainState.create(opt, flax.core.freeze(n.Transformer(c).init(k, x, x, x)))
    return jax.eval_shape(make, jax.random.PRNGKey(0))


def one(r, root, net):
    import flax
    import jax
    import jax.numpy as jnp
    import numpy as np
    from flax.traverse_util import flatten_dict, unflatten_dict
    from harness import zoo
    from t5x import checkpoint_importer as ci, checkpoints as ck
    a = arch_of(r, net)
    ps = names(a)
    slots = net or r.random() < .7
    g = np.random.default_rng(r.randrange(10**9))
    seen = {}

    def fresh(shape, dtype):
        while True:
            v = g.integers(1, 256, shape).astype(dtype)
            key = (str(v.dtype), v.shape, v.tobytes())
            if key not in seen:
                return v, key

    dt = lambda: np.float32 if net else r.choice([np.float32, np.float32, jnp.bfloat16])
    tensors, factored, state = {}, [], {}

    def put(name, place, shape, dtype):
        tensors[name], key = fresh(shape, dtype)
        seen[key] = name
        state[place] = tuple(shape)
    if net:
        st = network_state(a, r)
        flat = {k: v.shape for k, v in flatten_dict(st.state_dict(), sep='/').items()}
    for tf, to in ps:
        s = 'state/param_states/' + to + '/'
        if net:
            shape = flat.get('target/' + to, (2, 3))
            f = flat.get(s + 'v', (1,)) == (1,)
            row, col = flat.get(s + 'v_row', (1,)), flat.get(s + 'v_col', (1,))
        else:
            shape = (r.choice([4, 8]),) if 'scale' in to else (r.randint(3, 5), r.randint(3, 6))
            f = len(shape) == 2 and r.random() < .8
            row, col = shape[:1], shape[1:]
        put(tf, 'target/' + to, shape, dt())
        state[s + 'm'] = (1,)
        if slots and f:
            put(tf + '_slot_vr', s + 'v_row', row, np.float32)
            put(tf + '_slot_vc', s + 'v_col', col, np.float32)
            state[s + 'v'] = (1,)
            factored.append(to)
        elif slots:
            put(tf + '_slot_v', s + 'v', shape, np.float32)
            state[s + 'v_row'] = state[s + 'v_col'] = (1,)
    state['state/step'] = ()
    step = r.choice([0, 1, 1000, 2**31 - 1])
    tensors['global_step'] = np.int64(step) if r.random() < .5 else np.int32(step)
    if net:
        state = dict(flat)
    # what may be wrong with the file or the model
    strict, unknown, bad, gone = r.random() < .5, False, '', []
    u = r.random()
    if u < .1:
        unknown = True
        some = r.choice(sorted(tensors))
        tensors[r.choice(['foo/bar', 'foo/bar_slot_v', 'encoder/block_000/layer_000/SelfAttention/b_slot_m', 'logits/kernel_slot_vr', 'learning_rate', some + '/x', some[:-1] + '_', 'encoder/block_000/layer_000/SelfAttention/b', some + '_slot_m',
                          'decoder/block_000/layer_000/SelfAttention/relative_bias'])] = np.float32([1, 2, 3])
        assert len(tensors) > 0
    elif not net and u < .22:
        bad = r.choice(sorted(state))
        state[bad] = state[bad] + (1,) if r.random() < .5 else tuple(reversed(state[bad])) + (2,)
    elif not net and u < .45:
        gone = r.sample(sorted(state), r.randint(1, 4)) if r.random() < .6 else [k for k in state if k.startswith('state/')]
        for k in gone:
            del state[k]
    elif not net and u < .55:
        state['target/' + r.choice(['extra/kernel', 'decoder/relpos_bias/other'])] = (2,)
    elif net and u < .3:
        # a tensor of the model is not in the file, or one is too many
        if r.random() < .5:
            a2 = dict(a, logits=not a['logits'])
        else:
            a2 = dict(a, dec=a['dec'] + r.choice([-1, 1]) or 1)
        for tf, to in names(a2):
            if tf not in tensors:
                put(tf, 'target/' + to, (2, 3), np.float32)
                put(tf + '_slot_v', 'state/param_states/' + to + '/v', (2, 3), np.float32)
        have = {tf for tf, _ in names(a2)}
        for tf, to in ps:
            if tf not in have:
                for s in ('', '_slot_v', '_slot_vr', '_slot_vc'):
                    tensors.pop(tf + s, None)
        factored = [x for x in factored if x in {to for _, to in names(a2)}]
        a, state = a2, dict(flat)
    path = os.path.join(root, 'model.ckpt-%d' % r.randint(0, 10**6))
    write(path, tensors)
    how = r.choice(['checkpointer', 'converted', 'manager']) if net else r.choice(['eager', 'lazy', 'lazy'])
    if how == 'converted':
        strict = True
    c = dict(arch=a, slots=slots, factored=factored, tensors=[k for k in tensors if not unknown] or [], state=sorted(state), strict=strict,
             unknown=unknown, badshape=bad, whole=net, raised=False, got=[], dtypes=True, placed=True, how=how, what='%s %s' % (how, a))
    if unknown:
        c['tensors'] = sorted(t for t in tensors if t in seen.values() or t == 'global_step')
    axes = {}
    cast = r.choice([None, jnp.bfloat16]) if how in ('checkpointer', 'manager') else None
    try:
        if net:
            p = zoo.partitioner(*r.choice([(1, 1), (2, 2), (4, 2)]), rules=[('batch', 'data'), ('vocab', 'model'), ('embed', None), ('mlp', 'model'),
                                                                           ('heads', None), ('kv', None), ('joined_kv', 'model'), ('relpos_buckets', None)])
            d = os.path.join(root, 'out')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with p.mesh:
                axes = flatten_dict(flax.core.unfreeze(p.get_mesh_axes(st).state_dict()), sep='/')
                if how == 'manager':
                    k = ck.OrbaxCheckpointManagerInterface(d, st, p, restore_dtype=cast)
                    try:
                        out = k.restore_from_tf_checkpoint(path, strict=strict).state_dict()
                    finally:
                        k.close()
                else:
                    k = ck.Checkpointer(st, p, d, restore_dtype=cast)
                if how == 'manager':
                    pass
                elif how == 'checkpointer':
                    out = k.restore_from_tf_checkpoint(path, strict=strict).state_dict()
                else:
                    k.convert_from_tf_checkpoint(path)
                    out = k.restore(step=step).state_dict()
        else:
            shapes = unflatten_dict({tuple(k.split('/')): jax.ShapeDtypeStruct(v, np.float32) for k, v in state.items()})
            out = ci.restore_from_t5_checkpoint(shapes, path, lazy_parameters=how == 'lazy', strict=strict)
    except (ValueError, KeyError) as e:
        return dict(c, raised=True, error=str(e)[:200])
    for k, v in flatten_dict(flax.core.unfreeze(out), sep='/').items():
        if isinstance(v, ci.LazyArray):
            w = np.asarray(v.get())
            c['dtypes'] = c['dtypes'] and tuple(v.shape) == w.shape and v.dtype == w.dtype
        else:
            w = np.asarray(v)
            if axes.get(k) is not None:
                c['placed'] = c['placed'] and v.sharding.is_equivalent_to(jax.sharding.NamedSharding(p.mesh, axes[k]), v.ndim)
        if k == 'state/step':
            x = 'global_step' if int(w) == step and w.shape == () else '?'
        elif w.shape == (1,) and w[0] == 0:
            x = ''
        else:
            if cast and k.startswith('target/'):
                c['dtypes'] = c['dtypes'] and w.dtype == cast
                w = w.astype(np.float32)
            x = seen.get((str(w.dtype), w.shape, w.tobytes()), '?')
        c['got'].append([k, x])
    return c


def cases(item):
    seed, n = item
    from harness import env
    env.scan_shim()
    out = []
    root = tempfile.mkdtemp(prefix='c29')
    try:
        for i in range(n):
            out.append(one(random.Random('c29 %s %d' % (seed, i)), root, i % 4 == 0))
    finally:
        shutil.rmtree(root)
    return out


def run(chk):
    chk.spec('T5ImportMC', tlc.check('T5ImportMC', cfg(spec='Spec', constants=dict(Layers=Raw('0..%d' % chk.n(3, 5))), invariants=['Right', 'OneToOne'])))
    got = []
    for x in pool.pmap(chk, 'harness.checks.c29', 'cases', [(chk.seed * 100 + i, chk.n(24, 160)) for i in range(8)], procs=8, devices=DEVICES):
        got += x or []
    bad, n = tlc.judge('T5ImportCases', got, op='Ok')
    for b in bad:
        c = got[b]
        chk.violation(c['what'][:200], '%s: raised %s (%s), %s' % (c['what'], c['raised'], c.get('error', ''), [x for x in c['got'] if x[1] == '?'][:5]), c)
    chk.validated(n, dict(got[0], tensors=[], state=[], got=[]) if got else None)
    kinds = {}
    for c in got:
        k = '%s %s' % (c['how'], 'refused' if c['raised'] else 'imported')
        kinds[k] = kinds.get(k, 0) + 1
    chk.note(imports=kinds)
    chk.assumptions.append('a checkpoint with one layer per tower is taken to share its relative biases')
