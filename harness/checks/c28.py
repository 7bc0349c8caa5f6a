"""C28: mixtures of experts are laid out, trained and restored as the dense model would be.

Real dense training, upcycling of its checkpoint and training of the sparse model
over meshes of data, expert and model axes are validated against spec/Moe.tla;
meshes and layouts of fake topologies, logical axes, axis rules, losses, scaled
gradients and data placement are judged by spec/MoeCases.tla.
"""
import random
import re

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 8
IDS, SLOTS = 4, 16


# ---------------------------------------------------------------- topologies
def topo_case(c):
    from harness import topo
    from harness.checks import c14
    from t5x import partitioning
    from t5x.contrib.moe import partitioning as mp
    r = random.Random(c['seed'] + 1)
    devs, kw = c14.build(c)
    n = 1 + max(d.process_index for d in devs)
    k = r.choice([1, 2, 2, 3, 4, 4, 6, 8, 8, 16, 32])
    base = dict(kind='topo', what='%s experts %d' % (c, k), experts=k, plainrejected=False, rejected='')
    with topo.world(devs, 0):
        try:
            v = partitioning.PjitPartitioner(**kw)
            m = v.mesh
            plain = dict(dims=list(m.devices.shape), ids=[d.id for d in m.devices.flat],
                         hosts=[d.process_index for d in m.devices.flat])
            base['plain'] = plain
        except (AssertionError, ValueError):
            base['plainrejected'] = True
    parts = []
    try:
        for h in range(n):
            with topo.world(devs, h):
                p = mp.MoePjitPartitioner(num_expert_partitions=k, **kw)
                p.get_data_layout()
                parts.append(p)
    except (AssertionError, ValueError) as e:
        return dict(base, rejected='%s: %s' % (type(e).__name__, str(e)[:80]))
    if base['plainrejected']:
        return base
    grids = [[d.id for d in p.mesh.devices.reshape(-1)] for p in parts]
    if any(g != grids[0] for g in grids):
        grids[0] = [-1]         # hosts disagree
    where = {d.id: d.process_index for d in devs}
    names, dims = list(parts[0].mesh.axis_names), list(parts[0].mesh.devices.shape)
    mesh = dict(names=names, dims=dims, ids=grids[0], hosts=[where.get(i, -1) for i in grids[0]])
    size = dict(zip(names, dims))
    arrays, layouts = [], []
    for _ in range(4):
        rank = r.choice([1, 2, 3, 3, 4])
        free = list(names) + [None] * 3
        r.shuffle(free)
        axes = [free.pop() for _ in range(rank)]
        shape = [size.get(a, r.choice([1, 3])) * r.choice([1, 2]) for a in axes]
        ch, raised = [], False
        for h, p in enumerate(parts):
            with topo.world(devs, h):
                try:
                    i = p.get_local_chunk_info(tuple(shape), axes)
                    ch.append(dict(slice=[list(s.indices(z)[:2]) for s, z in zip(i.slice, shape)], replica=int(i.replica_id)))
                except (ValueError, AssertionError):
                    raised = True
        arrays.append(dict(shape=shape, axes=[[a] if a else [] for a in axes], chunks=[] if raised else ch, raised=raised))
    total = size.get('data', 1) * size.get('expert', 1)
    for asked in sorted({0, total, total * r.choice([2, 3]), total + 1, max(1, total // 2)}):
        hs, raised = [], False
        for h, p in enumerate(parts):
            with topo.world(devs, h):
                try:
                    y = p.get_data_layout(asked or None)
                    hs.append(dict(batch=int(y.batch_size), shard=int(y.shard_id), shards=int(y.num_shards),
                                   first=bool(y.is_first_host_in_replica_set)))
                except ValueError:
                    raised = True
        layouts.append(dict(asked=asked, raised=raised, hosts=[] if raised else hs))
    return dict(base, mesh=mesh, arrays=arrays, layouts=layouts)


def topo_cases(confs):
    return [topo_case(c) for c in confs]


# ---------------------------------------------------------------- axes, rules, losses
def partitioner(d, e, m, rules=None, filt=None):
    """The real partitioner over an explicit mesh."""
    import numpy as np
    import jax
    from jax.sharding import Mesh
    from t5x.contrib.moe import partitioning as mp
    grid = Mesh(np.array(jax.devices()[:d * e * m]).reshape(d, e, m), ['data', 'expert', 'model'])

    class Part(mp.MoePjitPartitioner):
        mesh = grid
    return Part(num_expert_partitions=e, num_partitions=m, logical_axis_rules=rules, state_filter_fn=filt)


def rule_list(rules):
    return [dict(name=n, to=[] if t is None else [t] if isinstance(t, str) else list(t)) for n, t in rules]


def spec_of(s, rank):
    out = [[] if a is None else [a] if isinstance(a, str) else list(a) for a in s]
    return out + [[]] * (rank - len(out))


NAMES = ['embed', 'mlp', 'heads', 'kv', 'joined_kv', 'vocab', 'expert_mlp', 'unmodeled', 'expert_replicas']


def axes_case(r):
    import flax
    import jax
    import numpy as np
    from flax.linen import partitioning as fp
    from flax.traverse_util import flatten_dict, unflatten_dict
    from t5x import adafactor, optimizers, train_state as ts
    from t5x.contrib.moe import adafactor_utils, partitioning as mp
    P = jax.sharding.PartitionSpec
    E = r.choice([2, 4])
    tree = {}
    SEG = ['mlp', 'expert', 'dense', 'experts_0', 'att', 'layer_0', 'moe']
    for _ in range(r.randint(1, 5)):
        path = tuple(r.choice(SEG) for _ in range(r.randint(1, 3))) + (r.choice(['kernel', 'kernel', 'bias', 'kernel2']),)
        if any(q[:len(path) - 1] == path[:-1] and len(q) != len(path) or q[:len(path)] == path or path[:len(q)] == q for q in tree):
            continue
        # the parameters of an expert have one part for each
        expert = 'expert' in '/'.join(path)
        if path[-1] == 'bias':
            names = [r.choice(['mlp', 'embed'])]
        else:
            names = r.choice([['embed', 'mlp'], ['mlp', 'embed'], ['embed', 'joined_kv'], ['vocab', 'embed']])
        if expert:
            names = ['expert'] + [dict(mlp='expert_mlp').get(n, n) for n in names]
        shape = [E if n == 'expert' else r.choice([2, 3, 4]) for n in names]
        tree[path] = (names, shape)
    kind = r.choice(['factored', 'factored', 'factored', 'unfactored', 'optax', 'multi', 'multi-optax', 'multi-mixed', 'multi-factoring',
                     'other', 'given', 'given'])
    ada = lambda f: adafactor.Adafactor(.1, factored=f, beta1=r.choice([None, None, .9]), min_dim_size_to_factor=1,
                                        logical_factor_rules=adafactor_utils.logical_factor_rules())
    sgd = lambda: optimizers.adamw(.1) if r.random() < .5 else optimizers.sgd(.1)
    first = sorted(tree)[0][0]

    class Other(optimizers.OptimizerDef):
        def __init__(self):
            super().__init__(None)

        def init_state(self, params):
            return optimizers.OptimizerState(0, jax.tree.map(lambda p: np.zeros_like(p), params))

        def derive_logical_axes(self, optimizer, axes):
            return optimizer.replace(target=axes, state=optimizers.OptimizerState(None, axes))
    from flax import traverse_util
    trav = [traverse_util.ModelParamTraversal(lambda p, _: ('/' + first + '/') in p[:len(first) + 2]),
            traverse_util.ModelParamTraversal(lambda p, _: ('/' + first + '/') not in p[:len(first) + 2])]
    filt = None
    word = r.choice(['m/', 'v', 'expert', 'kernel/', 'mlp'])
    how = 'given' if kind == 'given' else 'none' if kind in ('unfactored', 'optax', 'multi-optax') else \
        'factored' if kind in ('factored', 'multi') else 'none of these'
    if kind == 'given':
        from t5x.contrib.moe import training_utils
        filt = training_utils.match_fn(r'.*' + word)
    opt = {'factored': lambda: ada(True), 'unfactored': lambda: ada(False), 'optax': sgd, 'other': Other,
           'given': r.choice([lambda: ada(True), lambda: ada(False), Other]),
           'multi': lambda: optimizers.MultiOptimizer(list(zip(trav, [ada(True), ada(True)]))),
           'multi-optax': lambda: optimizers.MultiOptimizer(list(zip(trav, [optimizers.sgd(.1), optimizers.sgd(.2)]))),
           'multi-mixed': lambda: optimizers.MultiOptimizer(list(zip(trav, r.sample([ada(True), Other()], 2)))),
           'multi-factoring': lambda: optimizers.MultiOptimizer(list(zip(trav, r.sample([ada(True), ada(False)], 2))))}[kind]()
    infer = r.random() < .1 and kind not in ('given',)
    vs = dict(params=unflatten_dict({p: np.zeros(s, np.float32) for p, (_, s) in tree.items()}),
              params_axes=unflatten_dict({p[:-1] + (p[-1] + '_axes',): fp.AxisMetadata(names=tuple(n)) for p, (n, _) in tree.items()}))
    mut = r.random() < .3
    if mut:
        vs.update(moving=dict(n=np.zeros((3,), np.float32)), moving_axes=dict(n_axes=fp.AxisMetadata(names=('expert_replicas',))))
    vs = flax.core.freeze(vs)
    c = dict(kind='axes', what=str((kind, word, tree, infer)), experts=E, filter=how, inference=infer, raised=False, same=True,
             mutables=True, leaves=[])
    if infer:
        c['filter'] = 'none'
        st = ts.InferenceState.create(vs)
    else:
        try:
            st = ts.FlaxOptimTrainState.create(opt, vs)
        except (ValueError, TypeError, KeyError, AssertionError):
            return None                 # this optimizer does not take these parameters
    rules = mp.standard_logical_axis_rules()
    p = partitioner(1, 1, 1, filt=filt)
    plain = st.as_logical_axes()
    try:
        got = p.get_logical_axes(st)
    except ValueError:
        return dict(c, raised=True, rules=rule_list(rules), same=False)
    c.update(rules=rule_list(rules), twice=False)
    try:
        mesh = p.get_mesh_axes(st)
    except ValueError:
        c['twice'] = True
        mesh = got
    if mut:
        f = lambda s: flatten_dict(flax.core.unfreeze(s.flax_mutables))
        c['mutables'] = f(got) == f(plain) == {('moving', 'n'): P('expert_replicas')} or \
            f(got) == f(plain) and f(plain) != {}
    flat = lambda s: {'/'.join(map(str, k)): v for k, v in flatten_dict(flax.core.unfreeze(s.state_dict()), keep_empty_nodes=True).items()}
    show = lambda x: dict(none=True, names=[]) if x is None or not isinstance(x, P) else dict(
        none=False, names=['' if a is None else a for a in x])
    a, b, full, me = flat(plain), flat(got), flat(st), flat(mesh)
    if set(a) != set(b) or type(got) is not type(plain):
        return dict(c, same=False)
    for k in sorted(a):
        if k.startswith('flax_mutables') or k == 'state/step' or not hasattr(full.get(k), 'shape'):
            continue
        state = k.startswith('state/param_states/')
        if not state and not k.startswith('target/'):
            continue
        name = k[len('state/param_states/'):] if state else k[len('target/'):]
        seg = name.split('/')
        shape = list(full[k].shape)
        me_k = me.get(k)
        hit = filt(name) if filt and state else False
        c['leaves'].append(dict(state=state, leaf=seg[-1], kernel=len(seg) > 1 and seg[-2] == 'kernel',
                                expert='expert' in '/'.join(seg[:-1]), given=bool(hit and re.match('.*' + word, name)), plain=show(a[k]),
                                got=show(b[k]), shape=shape, isspec=isinstance(me_k, P),
                                spec=spec_of(me_k, len(b[k])) if isinstance(me_k, P) and isinstance(b[k], P) else []))
    return c


def rules_case(r):
    import flax.linen as nn
    from t5x.contrib.moe import partitioning as mp
    act, par = r.choice([1, 2]), r.choice([1, 2])
    extra = [(n, t) for n, t in [('special', r.choice(['data', 'expert', 'model', None])), ('other', None)] if r.random() < .5]
    everything = NAMES + ['batch', 'expert', 'length', 'layers', 'stack', 'relpos_buckets', 'mlp_activations', 'special', 'other']
    axis = {'batch': ['expert', 'data'], 'expert': ['expert'], 'expert_mlp': ['model'], 'expert_replicas': ['data'], 'vocab': ['model'],
            'mlp': ['model'], 'heads': ['model'], 'joined_kv': ['model'], **{n: [t] if t else [] for n, t in extra}}
    names, used = [], set()
    for n in r.sample(everything, r.randint(1, 5)):
        if n in ('special', 'other') and n not in dict(extra):
            continue
        if not set(axis.get(n, [])) & used:
            used |= set(axis.get(n, []))
            names.append(n)
    c = dict(kind='rules', act=act, par=par, extra=rule_list(extra), names=names, raised=False, spec=[], what=str((act, par, extra, names)))
    try:
        rules = mp.standard_logical_axis_rules(act, par, r.choice([tuple, list])(extra) if extra or r.random() < .5 else None)
        c['spec'] = spec_of(nn.logical_to_mesh_axes(tuple(names), tuple(rules)), len(names))
    except (ValueError, TypeError) as e:
        c['raised'] = True
    return c


def scale_case(r):
    import flax
    import jax
    import numpy as np
    from flax.traverse_util import flatten_dict, unflatten_dict
    from t5x.contrib.moe import training_utils as tu
    SEG = ['a', 'b', 'expert', 'experts', 'my_expert', 'mlp', 'kernel', 'aa', 'a_b', '0', '10', '2', 'z']
    tree = {}
    for i in range(r.randint(1, 8)):
        p = tuple(r.choice(SEG) for _ in range(r.randint(1, 4)))
        if not any(q[:len(p)] == p or p[:len(q)] == q for q in tree):
            tree[p] = r.randint(-9, 9) or 5
    items = list(tree.items())
    r.shuffle(items)
    prefix = r.choice([None, '', r'.*expert.*', r'.*expert', 'expert', 'a/', r'.*/kernel', 'mlp|b', r'.*expert/'])
    fn = None if prefix is None else tu.match_fn(prefix)
    factor = r.choice([2, 3, 4, 8, -1])
    hit = lambda p: bool(prefix) and re.match('^' + prefix, '/'.join(p)) is not None
    wrap = flax.core.freeze if r.random() < .5 else (lambda x: x)
    g = wrap(unflatten_dict({p: np.array([v, 1], np.float32) for p, v in items}))
    if r.random() < .3:
        out = tu.tree_map_with_names(lambda x: x * factor, g, fn) if fn else g
    else:
        out = tu.scale_sharded_grads(g, fn, factor)
    flat = lambda t: flatten_dict(flax.core.unfreeze(t))
    o = flat(out)
    return dict(kind='scale', what=str((prefix, factor, items)), factor=factor, same=type(out) is type(g) and set(o) == set(tree),
                leaves=[dict(hit=hit(p), before=int(v), after=int(o.get(p, [99])[0])) for p, v in tree.items()])


def parts_case(r):
    from t5x.contrib.moe import partitioning as mp
    num = r.choice([None, 1, 2, 4, 8])
    tile = r.choice([None, (1, 1, 1, 1), (2, 2, 1, 1), (2, 1, 1, 2), (2, 2, 2, 1)])
    c = dict(kind='parts', num=num or 0, tile=list(tile or []), raised=False, got=0, what=str((num, tile)))
    try:
        c['got'] = int(mp.compute_num_model_partitions(num, tile))
    except ValueError:
        c['raised'] = True
    return c


U = 4096
SOWN = ['auxiliary_loss', 'router_z_loss', 'fraction_tokens_left_behind', 'expert_usage', 'router_confidence']


def loss_case(r):
    import flax.linen as nn
    import jax
    import jax.numpy as jnp
    import numpy as np
    from harness import nets
    from t5x import models
    from t5x.contrib.moe import models as mm
    V = nets.VOCAB
    layers = r.randint(1, 4)
    stacked = r.random() < .4
    vals = {k: [r.randint(0, 32) for _ in range(layers * (2 if stacked else 1))] for k in SOWN}      # eighths
    slope = r.randint(-3, 3)
    missing = r.choice(SOWN) if r.random() < .1 else None
    enc = r.random() < .5

    class Layer(nn.Module):
        num: int

        @nn.compact
        def __call__(self, x):
            v = self.param('r', nn.initializers.zeros, (1,))
            for k in SOWN:
                if k == missing:
                    continue
                q = vals[k][2 * self.num:2 * self.num + 2] if stacked else vals[k][self.num:self.num + 1]
                q = jnp.asarray(q, jnp.float32) / 8
                q = q + slope * v if k == 'auxiliary_loss' else q
                self.sow('intermediates', k, q if stacked else q[0])

    class Net(nn.Module):
        @nn.compact
        def __call__(self, *a, **kw):
            tokens = a[1] if enc else a[0]
            table = self.param('table', nn.initializers.zeros, (V, V))
            for i in range(layers):
                Layer(num=i, name=r_names[i])(tokens)
            self.sow('intermediates', 'other', jnp.ones(()))
            return table[tokens]
    r_names = r.sample(['encoder_layer', 'decoder_0', 'decoder_1', 'mlp', 'moe'], layers)
    rng = np.random.default_rng(r.randrange(10**9))
    B, L = r.randint(1, 3), r.randint(1, 4)
    batch = dict(decoder_input_tokens=rng.integers(0, V, (B, L)), decoder_target_tokens=rng.integers(1, V, (B, L)),
                 decoder_loss_weights=np.where(rng.random((B, L)) < .3, 0, 1))
    if enc:
        batch['encoder_input_tokens'] = rng.integers(0, V, (B, 2))
    else:
        batch['decoder_causal_attention'] = np.zeros((B, L), np.int32)
    batch['decoder_loss_weights'][0, 0] = 1
    batch = {k: jnp.asarray(v, jnp.int32) for k, v in batch.items()}
    params = {'table': jnp.asarray(rng.integers(-2, 3, (V, V)), jnp.float32), **{n: {'r': jnp.zeros((1,))} for n in r_names}}
    auxf, zf = r.choice([0, 1, 4, 16]), r.choice([0, 1, 2, 8])
    voc = nets.vocabulary()
    kw = dict(label_smoothing=r.choice([0., .125]), z_loss=r.choice([0., .0625, .25]), loss_normalizing_factor=r.choice([None, 2., 4., 'NUM_REAL_TARGET_TOKENS']))
    net = Net()
    if enc:
        plain = models.EncoderDecoderModel(net, voc, voc, None, **kw)
        moe = mm.MoeEncoderDecoderModel(net, voc, voc, None, aux_loss_factor=auxf / 16, router_z_loss_factor=zf / 16, **kw)
    else:
        plain = models.DecoderOnlyModel(net, voc, None, **kw)
        moe = mm.MoeDecoderOnlyModel(net, voc, None, aux_loss_factor=auxf / 16, router_z_loss_factor=zf / 16, **kw)
    u = lambda x: int(round(float(jnp.asarray(x).sum()) * U))
    base, bm = plain.loss_fn(params, batch, None)
    c = dict(kind='loss', what=str((vals, missing, enc, kw, auxf, zf)), missing=missing is not None, raised=False, base=u(base),
             basez=u(bm['z_loss'].total), auxf=auxf, zf=zf,
             aux=[v * U // 8 for v in vals['auxiliary_loss']], rz=[v * U // 8 for v in vals['router_z_loss']],
             left=[v * U // 8 for v in vals['fraction_tokens_left_behind']], usage=[v * U // 8 for v in vals['expert_usage']],
             confidence=[v * U // 8 for v in vals['router_confidence']], slope=slope * U, tokens=B * L)
    try:
        (total, m), g = jax.value_and_grad(moe.loss_fn, has_aux=True)(params, batch, r.choice([None, jax.random.PRNGKey(0)]))
    except ValueError:
        return dict(c, raised=True)
    val = lambda k: u(m[k].total / m[k].steps)
    c.update(total=u(total), grad=sum(u(g[n]['r']) for n in r_names), m=dict(
        aux=val('experts/auxiliary_loss'), rz=val('experts/router_z_loss'), left=val('experts/fraction_tokens_left_behind'),
        usage=val('experts/expert_usage'), confidence=val('experts/router_confidence'), loss=val('loss'), cross=val('cross_ent_loss'),
        zloss=val('z_loss'), pertoken=u(m['cross_ent_loss_per_all_target_tokens'].compute())))
    return c


def place_case(r):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from t5x import partitioning
    P = partitioning.PartitionSpec
    d, e, m = mesh_shape(r)
    p = partitioner(d, e, m)
    B = d * e * r.choice([1, 2, 3])
    x = np.arange(B, dtype=np.int32)
    own = r.choice([P('data'), p.data_partition_spec])
    form = (n, at) = r.choice([(n, at) for n in range(1, 5) for at in range(n)])     # the batch is argument at of n
    if n == 1:
        ins, outs, fn, args = (own,), own, lambda a: a * 1, (x,)
    else:
        ins = tuple(own if i == at else None for i in range(n))
        outs = ins
        fn = lambda *a: tuple(v * 1 if i == at else v + a[at].sum() for i, v in enumerate(a))
        args = tuple(x if i == at else np.int32(0) for i in range(n))
    f = p.partition(fn, in_axis_resources=ins, out_axis_resources=outs)
    ids = [v.id for v in p.mesh.devices.flat]
    rows = lambda a: [{s.device.id: np.asarray(s.data).tolist() for s in a.addressable_shards}.get(i, [-1]) for i in ids]
    with p.mesh:
        out = f(*args)
    y = out if n == 1 else out[at]
    sums = int(np.asarray(y).sum()) if n == 1 else int(out[0 if at else 1])
    z = jax.make_array_from_callback((B,), jax.sharding.NamedSharding(p.mesh, p.data_partition_spec), lambda i: x[i])
    return dict(kind='place', what=str((d, e, m, B, form, own)), mesh=dict(names=list(p.mesh.axis_names), dims=[d, e, m]), batch=B,
                rows=rows(z), out=rows(y), sum=sums)


def mesh_shape(r):
    return r.choice([(1, 1, 1), (2, 2, 2), (1, 4, 1), (4, 2, 1), (2, 4, 1), (1, 2, 2), (2, 1, 2), (1, 2, 4), (2, 2, 1), (1, 8, 1)])


def cases(item):
    seed, n = item
    out = []
    for what, fn, k in [('axes', axes_case, 6), ('rules', rules_case, 12), ('scale', scale_case, 10), ('parts', parts_case, 2),
                        ('loss', loss_case, 3), ('place', place_case, 5)]:
        for i in range(k * n):
            c = fn(random.Random('c28 %s %d %d' % (what, seed, i)))
            if c:
                out.append(dict(c, what='%s seed %d run %d: %s' % (what, seed, i, c['what'])))
    return out


# ---------------------------------------------------------------- training and upcycling
def nothing(tree):
    return None


def learner(named=True):
    import jax
    import jax.numpy as jnp
    from flax import struct
    from t5x import optimizers

    @struct.dataclass
    class HP:
        learning_rate: float = 0.0

    class Counting(optimizers.OptimizerDef):
        """Gradient descent with a state of the form of the parameter and one that has none."""

        def __init__(self):
            super().__init__(HP())

        def init_state(self, params):
            return optimizers.OptimizerState(jnp.zeros((), jnp.int32), jax.tree.map(
                lambda p: dict(v=jnp.zeros((1,), jnp.float32), v_row=p * 0), params))

        def apply_gradient(self, hyper_params, params, state, grads):
            lr = hyper_params.learning_rate
            new = jax.tree.map(lambda p, g: p - lr * g, params, grads)
            ps = jax.tree.map(lambda p, q: dict(v=q['v'] + 1, v_row=q['v_row'] + p), params, state.param_states)
            return new, optimizers.OptimizerState(state.step + 1, ps)

        def derive_logical_axes(self, optimizer, axes):
            return optimizer.replace(target=axes, state=optimizers.OptimizerState(None, jax.tree.map(
                lambda x: dict(v=None, v_row=x if named else None), axes, is_leaf=lambda x: isinstance(x, jax.sharding.PartitionSpec))))
    return Counting()


class Model:
    def __init__(self, sparse, named):
        self.sparse = sparse
        self.optimizer_def = learner(named)

    def loss_fn(self, params, batch, rng, flax_mutables=None):
        import jax.numpy as jnp
        from t5x import metrics as ml
        w, i, e = batch['w'].astype(jnp.float32), batch['id'], batch['e']
        k = params['mlp']['expert']['kernel'][e, i] if self.sparse else params['mlp']['kernel'][i]
        loss = jnp.sum(w * (k[:, 0] + 2 * k[:, 1] + params['att']['kernel'][i] + params['z_experts']['s'][0]))
        if self.sparse:
            loss += jnp.sum(w * params['router']['kernel'][i, e])
        return loss, {'weight': ml.Sum.from_model_output(w.sum())}


def variables(params, axes):
    from flax.core import freeze
    from flax.linen import partitioning as fp
    from flax.traverse_util import flatten_dict, unflatten_dict
    return freeze(dict(params=params, params_axes=unflatten_dict(
        {tuple(k.split('/'))[:-1] + (k.split('/')[-1] + '_axes',): fp.AxisMetadata(names=a) for k, a in axes.items()})))


AXES = {'att/kernel': ('embed',), 'z_experts/s': ('unmodeled',)}
DENSE = dict(AXES, **{'mlp/kernel': ('embed', 'unmodeled')})
SPARSE = dict(AXES, **{'mlp/expert/kernel': ('expert', 'embed', 'unmodeled'), 'router/kernel': ('unmodeled', 'unmodeled_too')})
SCALED = {'default': ['mlp', 's'], 'off': [], r'att': ['att'], r'kernel': [], r'.*kernel': ['mlp', 'att', 'router'],
          r'.*expert/': ['mlp'], r'mlp|router': ['mlp', 'router']}


def runs(item):
    import functools
    import shutil
    import tempfile
    import jax
    import jax.numpy as jnp
    import numpy as np
    from clu import metric_writers
    from harness import zoo
    from t5x import checkpoints as ck, state_utils, train_state as tsl, trainer as trl
    from t5x.contrib.moe import checkpoints as mc, trainer as mt, training_utils as tu
    trl.metric_writers.create_default_writer = lambda *a, **k: metric_writers.MultiWriter([])
    seed, num = item
    out = []
    for k in range(num):
        r = random.Random('c28 runs %d %d' % (seed, k))
        d, e, m = mesh_shape(r)
        experts = e * r.choice([1, 1, 2]) if e < 8 else 8
        named = r.random() < .5      # whether the axes of states are known, or (as by Adafactor) not
        part = partitioner(d, e, m, filt=lambda name: not named and 'expert/' in name and name.endswith('v_row'))
        dd, dm = r.choice([(1, 1), (2, 1), (2, 2), (1, 4)])
        dense = zoo.partitioner(dd, dm, [('batch', 'data'), ('embed', None), ('unmodeled', None)])
        rate = [r.randint(0, 3) for _ in range(SLOTS)]
        table = jnp.asarray(rate, jnp.float32)
        n = lambda: r.randint(-9, 9)
        start = dict(mlp=[[n(), n()] for _ in range(IDS)], att=[n() for _ in range(IDS)], s=n())
        step = r.choice([0, 0, 3])
        fresh = [[n() for _ in range(experts)] for _ in range(IDS)]
        f = lambda x: jnp.asarray(x, jnp.float32)
        common = lambda: {'att': {'kernel': f(start['att'])}, 'z_experts': {'s': f([start['s']])}}
        mod = Model(False, named)
        st = tsl.FlaxOptimTrainState.create(mod.optimizer_def, variables(dict(common(), mlp={'kernel': f(start['mlp'])}), DENSE)).replace_step(
            jnp.asarray(step, jnp.int32))
        micro = r.choice([None, 1, 2, 4])
        mm = micro or 1
        ev = []

        def batch(size):
            b = [dict(id=r.randrange(IDS), w=r.choice([0, 1, 1, 2]), e=r.randrange(experts)) for _ in range(size)]
            return b, {q: np.asarray([x[q] for x in b], np.int32) for q in ('id', 'w', 'e')}

        def ints(x):
            a = np.asarray(x, np.float64)
            return np.where(a == np.rint(a), a, 10**6).astype(int).tolist()

        def now(s, sparse):
            p = s.params
            return dict(mlp=ints(p['mlp']['expert']['kernel']) if sparse else [ints(p['mlp']['kernel'])], att=ints(p['att']['kernel']),
                        s=ints(p['z_experts']['s'])[0], step=int(s.step), router=ints(p['router']['kernel']) if sparse else [])

        def train(t, p, sparse, rows):
            with p.mesh:
                for _ in range(r.randint(1, 2)):
                    bs = [batch(mm * rows * r.choice([1, 2])) for _ in range(1)]
                    bs += [batch(len(bs[0][0])) for _ in range(r.randint(0, 1))]
                    weight = []
                    for b, x in bs:
                        res = t.train(iter([x]), 1).result()
                        v = res['weight']
                        weight.append(int(v.value if hasattr(v, 'value') else v))
                    ev.append(dict(op='train', batches=[b for b, _ in bs], weight=weight, after=now(t.train_state, sparse)))
        kw = dict(eval_names=[], summary_dir=None, rng=jax.random.PRNGKey(r.randint(0, 9)), learning_rate_fn=lambda s: table[s],
                  num_microbatches=micro)
        t = trl.Trainer(model=mod, train_state=st, partitioner=dense, train_state_axes=dense.get_mesh_axes(st), **kw)
        if r.random() < .7:
            train(t, dense, False, dd)
        st = t.train_state
        t.close()
        h = dict(id='seed %d run %d: mesh %s, %d experts, %s micro-batches' % (seed, k, (d, e, m), experts, micro), rate=rate, start=start,
                 step=step, experts=experts, fresh=fresh, ev=ev)
        out.append(h)
        root = tempfile.mkdtemp(prefix='c28')
        try:
            with dense.mesh:
                ck.Checkpointer(st, dense, root).save(st)
            model = Model(True, named)
            wrong = r.random() < .15
            wide = [[1] * 3] * IDS if wrong else start['mlp']
            init = lambda: tsl.FlaxOptimTrainState.create(model.optimizer_def, variables(dict(
                common(), mlp={'expert': {'kernel': f(np.zeros((experts,) + np.shape(wide)))}}, router={'kernel': f(fresh)}), SPARSE))
            new = init()
            maps = [(r'(.*)mlp/expert(.*)', r'\1mlp\2'), (r'(.*)router(.*)', None)]
            fn = functools.partial(state_utils.apply_assignment_map, assignment_map=maps)
            # (the numbers of a trained model need more than half precision)
            half = r.choice([None, jnp.float32, jnp.bfloat16] if not ev else [None, jnp.float32])
            c = mc.UpcycleCheckpointer(new, part, root, num_experts=experts, restore_dtype=half)
            again = {'target': {'router': {'kernel': f(fresh)}},
                     'state': {'param_states': {'router': {'kernel': jax.tree.map(np.asarray, new.state_dict()['state']['param_states']['router']['kernel'])}}}}
            try:
                new = c.restore(state_transformation_fns=[fn], fallback_state=again)
            except ValueError as x:
                if not wrong:
                    raise
                ev.append(dict(op='refused', otherwidth=True))
                continue
            kind = r.choice(sorted(SCALED))
            factor = r.choice([1, 2, e, experts])
            scale = {q: factor if q in SCALED[kind] else 1 for q in ('mlp', 'att', 'router', 's')}
            h['scale'] = scale
            old, ps = st.state_dict()['state']['param_states'], new.state_dict()['state']['param_states']
            eq = lambda a, b: np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, np.float64), np.asarray(b, np.float64))
            o, q = old['mlp']['kernel'], ps['mlp']['expert']['kernel']
            same = all(eq(old[x][y][v], ps[x][y][v]) for x, y in (('att', 'kernel'), ('z_experts', 's')) for v in ('v', 'v_row'))
            same = same and eq(o['v'], q['v']) and eq(np.stack([o['v_row']] * experts), q['v_row'])
            same = same and all(str(x.dtype) == jnp.dtype(half or jnp.float32).name for x in (
                new.params['mlp']['expert']['kernel'], new.params['att']['kernel'], new.params['z_experts']['s']))
            ev.append(dict(op='upcycle', after=now(new, True), states=bool(same)))
            if half == jnp.bfloat16:
                continue
            more = {} if kind == 'default' else dict(sharded_match_fn=None if kind == 'off' else tu.match_fn(kind))
            t = mt.MoeTrainer(model=model, train_state=new, partitioner=part, train_state_axes=part.get_mesh_axes(new),
                              num_expert_partitions=factor, **kw, **more)
            train(t, part, True, d * e)
            t.close()
        finally:
            shutil.rmtree(root)
    return out


def run(chk):
    c = cfg(spec='Spec', constants=dict(Ids=Raw('{0, 1}'), Experts=Raw('{0, 1}'), Rate='<- Rates', MaxStep=chk.n(3, 4),
                                        Scales=Raw('{1, 2}'), MaxLen=1), invariants=['Alike', 'Together', 'Idle', 'Unscaled'])
    chk.spec('MoeMC', tlc.check('MoeMC', c))
    from harness.checks import c14
    seed = chk.seed
    confs = [x for x in c14.topologies(seed + 28, chk.n(500, 4000)) if x['kind'] != 'slices']
    got = []
    for x in pool.pmap(chk, 'harness.checks.c28', 'topo_cases', [confs[i::32] for i in range(32)], procs=8):
        got += x or []
    for x in pool.pmap(chk, 'harness.checks.c28', 'cases', [(seed * 100 + i, chk.n(3, 20)) for i in range(8)], procs=8, devices=DEVICES):
        got += x or []
    bad, n = tlc.judge('MoeCases', got, op='Ok')
    for b in bad:
        chk.violation(got[b]['what'][:200], str(got[b])[:1500], got[b])
    hist = []
    for x in pool.pmap(chk, 'harness.checks.c28', 'runs', [(seed * 100 + i, chk.n(5, 40)) for i in range(8)], procs=8, devices=DEVICES):
        hist += x or []
    reached, st = tlc.validate('MoeTrace', cfg(
        spec='TSpec', constants=dict(Ids=Raw('{0, 1, 2, 3}'), Experts=Raw('{}'), Rate='<- RateOf'), constraints=['Track'], postcondition='Report'), hist)
    chk.spec('MoeTrace', st)
    for h, k in zip(hist, reached):
        if k < len(h['ev']):
            e = h['ev'][k]
            chk.violation('%s: event %d %s' % (h['id'], k + 1, e['op']), '%s: event %d (%s) does not follow: %s' % (
                h['id'], k + 1, e['op'], str(e)[:700]), h)
    chk.validated(n + len(hist), hist[0] if hist else None)
    kinds = {}
    for x in got:
        kinds[x['kind']] = kinds.get(x['kind'], 0) + 1
    chk.note(cases=kinds, histories=len(hist), upcycled=sum(e['op'] == 'upcycle' for h in hist for e in h['ev']))
