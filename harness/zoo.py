"""Real partitioners and train states for the checks."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from flax.core import freeze
from flax.linen import partitioning as fp
from jax.sharding import Mesh

RULES = [('batch', 'data'), ('vocab', 'model'), ('embed', None), ('mlp', 'model'),
         ('heads', 'model'), ('kv', None), ('joined_kv', 'model'), ('stack', None)]
RULES2 = [('batch', 'data'), ('vocab', 'model'), ('mlp', 'model'), ('heads', 'model'),
          ('kv', None), ('joined_kv', 'model'), ('embed', 'data'), ('stack', None)]


def mesh_of(data, model):
    devs = np.array(jax.devices()[:data * model]).reshape(data, model)
    return Mesh(devs, ('data', 'model'))


def partitioner(data=1, model=1, rules=None, on_devices=True):
    """PjitPartitioner over an explicit mesh."""
    from t5x import partitioning
    m = mesh_of(data, model)

    class P(partitioning.PjitPartitioner):
        mesh = m
    p = P(num_partitions=max(1, model), logical_axis_rules=list(rules or RULES),
          params_on_devices=on_devices)
    return p


SHAPES = {
    'encoder/w': ((8, 16), ('embed', 'mlp')),
    'encoder/b': ((16,), ('mlp',)),
    'encoder/scale': ((8,), ('embed',)),
    'decoder/w': ((8, 8), ('embed', 'mlp')),
    'decoder/ln/scale': ((8,), ('embed',)),
    'head': ((16, 8), ('vocab', 'embed')),
    't': ((3, 5), ('stack', 'kv')),
}
STACKED = {'stacked/w': ((2, 8, 8), ('stack', 'embed', 'mlp'))}
NO_STACKED = ('adafactor', 'multi')


def unflat(d):
    import flax.traverse_util as tu
    return tu.unflatten_dict({tuple(k.split('/')): v for k, v in d.items()})


def flat(tree):
    import flax.traverse_util as tu
    return {'/'.join(k): v for k, v in tu.flatten_dict(tree, keep_empty_nodes=False).items()}


def value(name, shape, step, dtype=np.float32):
    """A value that identifies the leaf and the step, not exact in bfloat16."""
    import zlib
    seed = zlib.crc32(('%s@%d' % (name, step)).encode())
    r = np.random.default_rng(seed)
    x = r.standard_normal(shape) * 3 + (seed % 13)
    if np.issubdtype(np.dtype(dtype), np.integer):
        return np.asarray(r.integers(0, 1000, shape), dtype)
    if np.dtype(dtype) == np.bool_:
        return np.asarray(r.integers(0, 2, shape), dtype)
    return np.asarray(x, dtype)


def variables(names=None, mutables=False, dtype=np.float32, stacked=True):
    al = dict(SHAPES, **(STACKED if stacked else {}))
    names = list(names or al)
    params = unflat({n: jnp.asarray(value(n, al[n][0], 0), dtype) for n in names})
    axes = unflat({n + '_axes': fp.AxisMetadata(names=al[n][1]) for n in names})
    v = {'params': params, 'params_axes': axes}
    if mutables:
        v['stats'] = {'mean': jnp.zeros((8,), jnp.float32), 'n': {'count': jnp.zeros((2,), jnp.float32)}}
        v['stats_axes'] = {'mean_axes': fp.AxisMetadata(names=('embed',)),
                           'n': {'count_axes': fp.AxisMetadata(names=('stack',))}}
    return freeze(v)


def opt(kind):
    from t5x import adafactor, optimizers
    import flax.traverse_util as tu
    if kind == 'adafactor':
        return adafactor.Adafactor(0.1, min_dim_size_to_factor=4)
    if kind == 'adafactor_rules':
        return adafactor.Adafactor(
            0.1, beta1=0.9, logical_factor_rules=adafactor.standard_logical_factor_rules(),
            min_dim_size_to_factor=4)
    if kind == 'adam':
        return optimizers.adam(0.1)
    if kind == 'sgd':
        return optimizers.sgd(0.1)
    if kind == 'chain':
        import optax
        return optimizers.chain([optax.clip_by_global_norm(1.0), optax.scale_by_adam(),
                                 optax.add_decayed_weights(0.01), optax.scale(-0.1)])
    if kind == 'multi':
        a = adafactor.Adafactor(0.1)
        b = adafactor.Adafactor(0.5, beta1=0.9)
        return optimizers.MultiOptimizer([
            (tu.ModelParamTraversal(lambda p, _: 'encoder' in p), a),
            (tu.ModelParamTraversal(lambda p, _: 'scale' in p and 'encoder' not in p), b)])
    raise ValueError(kind)


def state(kind='adam', names=None, mutables=False, dtype=np.float32):
    from t5x import train_state as tsl
    v = variables(names, mutables, dtype, stacked=kind not in NO_STACKED)
    if kind == 'inference':
        return tsl.InferenceState.create(v)
    return tsl.FlaxOptimTrainState.create(opt(kind), v)


def fill(st, step):
    """The same structure with every leaf set to value(name, step)."""
    sd = flat(st.state_dict())
    new = {}
    for k, v in sd.items():
        if v is None:
            new[k] = None
        elif k == 'state/step':
            new[k] = jnp.asarray(step, jnp.int32)
        else:
            a = np.asarray(v)
            new[k] = jnp.asarray(value(k, a.shape, step, a.dtype))
    return st.restore_state(unflat(new))


def restore_leaves(st, lv):
    """The same structure with the given leaves."""
    sd = flat(st.state_dict())
    return st.restore_state(unflat({k: None if v is None else jnp.asarray(lv[k])
                                    for k, v in sd.items()}))


def place(p, st):
    """On the devices of the partitioner, with the state's mesh axes."""
    axes = p.get_mesh_axes(st)
    return p.move_params_to_devices(st, axes)


def host(st):
    """Numpy leaves, as if params stay on the host."""
    return jax.tree.map(np.asarray, st)


def leaves(st):
    """{name: numpy array} with lazy leaves materialised."""
    out = {}
    for k, v in flat(st if isinstance(st, dict) else st.state_dict()).items():
        if v is None:
            continue
        if hasattr(v, 'get_async'):
            v = v.get()
        out[k] = np.asarray(v)
    return out
