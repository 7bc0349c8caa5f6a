"""C12: inference gives exactly one correctly paired result per input.

utils.get_infer_fn is run over datasets of many sizes with the real partitioner
on several devices, and with several hosts (threads that exchange their parts of
global arrays at barriers) and data shards; what every host returns is judged by
TLC (spec/Infer.tla).
"""
import random
import threading
import types

from harness import pool, tlc
from harness.tlc import cfg

DEVICES = 8


class Sim:
    """Hosts as threads; what crosses hosts goes through barriers."""
    local = threading.local()

    def __init__(self, hosts, shards):
        self.hosts, self.shards = hosts, shards
        self.bar = threading.Barrier(hosts, timeout=120)
        self.slots = {}

    def exchange(self, x):
        h = self.local.host
        self.slots[h] = x
        self.bar.wait()
        all_ = [self.slots[i] for i in range(self.hosts)]
        self.bar.wait()
        return all_

    def run(self, fn):
        out, err = [None] * self.hosts, []

        def go(h):
            self.local.sim, self.local.host = self, h
            try:
                out[h] = fn(h)
            except threading.BrokenBarrierError:
                pass
            except BaseException as e:  # pylint: disable=broad-except
                err.append(e)
                self.bar.abort()
        ts = [threading.Thread(target=go, args=(h,)) for h in range(self.hosts)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if err:
            raise err[0]
        if any(o is None for o in out):
            raise AssertionError('hosts waited for each other in vain')
        return out


_done = []


def install():
    if _done:
        return
    _done.append(1)
    import jax
    import numpy as np
    from jax.experimental import multihost_utils as mu
    real = {k: getattr(jax, k) for k in ('process_count', 'process_index')}
    realmu = {k: getattr(mu, k) for k in ('host_local_array_to_global_array', 'global_array_to_host_local_array',
                                          'assert_equal', 'sync_global_devices')}
    sim = lambda: getattr(Sim.local, 'sim', None)
    jax.process_count = lambda *a, **k: sim().hosts if sim() else real['process_count'](*a, **k)
    jax.process_index = lambda *a, **k: Sim.local.host if sim() else real['process_index'](*a, **k)

    def to_global(x, mesh, spec):
        s = sim()
        if s is None:
            return realmu['host_local_array_to_global_array'](x, mesh, spec)
        P = jax.sharding.PartitionSpec
        flat, tree = jax.tree_util.tree_flatten(x)
        # specs are a prefix of the arrays
        specs = jax.tree_util.tree_leaves(jax.tree_util.tree_map(
            lambda p, sub: jax.tree_util.tree_map(lambda _: p, sub), spec, x, is_leaf=lambda v: isinstance(v, P)),
            is_leaf=lambda v: isinstance(v, P))
        assert len(specs) == len(flat)
        parts = s.exchange([np.asarray(v) for v in flat])
        for h in range(s.hosts):        # hosts of one shard, and all for replicated arrays, must agree
            for a, b, p in zip(parts[h], parts[h % s.shards], specs):
                assert a.dtype == b.dtype and np.array_equal(a, b), 'hosts of one shard feed different rows'
            for a, b, p in zip(parts[h], parts[0], specs):
                assert len(p) or np.array_equal(a, b), 'hosts disagree about a replicated value'
        out = [np.concatenate([parts[h][i] for h in range(s.shards)]) if len(p) else parts[0][i]
               for i, p in enumerate(specs)]
        return jax.tree_util.tree_unflatten(tree, out)

    def to_local(x, mesh, spec):
        return x if sim() else realmu['global_array_to_host_local_array'](x, mesh, spec)

    def assert_equal(x, fail_message=''):
        s = sim()
        if s is None:
            return realmu['assert_equal'](x, fail_message)
        parts = s.exchange(jax.tree_util.tree_map(np.asarray, x))
        for p in parts:
            for a, b in zip(jax.tree_util.tree_leaves(p), jax.tree_util.tree_leaves(parts[0])):
                assert np.array_equal(a, b), fail_message

    def sync(name):
        return sim().exchange(name) and None if sim() else realmu['sync_global_devices'](name)
    mu.host_local_array_to_global_array, mu.global_array_to_host_local_array = to_global, to_local
    mu.assert_equal, mu.sync_global_devices = assert_equal, sync


def frozen(**k):
    import flax
    return flax.core.FrozenDict(k)


SHAPES = {      # structures of outputs, and the leaves' lengths (0: a number)
    'one': ([0], lambda l: l[0]),
    'seq': ([3], lambda l: l[0]),
    'dict': ([2, 0], lambda l: dict(a=l[0], b=l[1])),
    'tuple': ([3, 0], lambda l: (l[0], l[1])),
    'nested': ([0, 2, 3], lambda l: dict(x=(l[0], l[1]), y=[l[2]])),
    'aux': ([3, 0], lambda l: (l[0], dict(scores=l[1]))),
    'auxnest': ([2, 0, 3, 2], lambda l: (dict(t=l[0], u=l[1]), dict(s=l[2], deep=dict(z=l[3])))),
    'auxtuple': ([0, 2, 0], lambda l: ((l[0], l[1]), dict(s=l[2]))),
    'noaux': ([2], lambda l: (l[0], dict())),
    'auxfrozen': ([2, 0, 2], lambda l: (l[0], frozen(s=l[1], t=l[2]))),
    'three': ([2, 0, 2], lambda l: (l[0], l[1], l[2])),
}


def make_step(shape, rng, mutables):
    import jax
    import jax.numpy as jnp
    lens, build = SHAPES[shape]

    def leaves(params, batch, key, mut):
        base = params['w'] * batch['x'][:, 0] + (mut['m'] if mutables else 0)
        ls = []
        for j, n in enumerate(lens):
            v = base + 10 * j
            v = v if n == 0 else v[:, None] + jnp.arange(n)
            ls.append(v.astype(jnp.float32) if j == 1 else v)
        if rng:     # every leaf's row also names its key, in the last place of the last leaf
            k = jnp.zeros((), jnp.uint32) if key is None else jax.random.bits(key)
            tag = jnp.broadcast_to((k >> 8).astype(jnp.int32) + (0 if key is None else 1), base.shape)
            ls[0] = jnp.stack([ls[0], tag], -1) if lens[0] == 0 else jnp.concatenate([ls[0], tag[:, None]], -1)
        return build(ls)
    if rng and mutables:
        return lambda params, batch, rng, flax_mutables: leaves(params, batch, rng, flax_mutables)
    if rng:
        return lambda params, batch, rng: leaves(params, batch, rng, None)
    if mutables:
        return lambda params, batch, flax_mutables: leaves(params, batch, None, flax_mutables)
    return lambda params, batch: leaves(params, batch, None, None)


def ints(v):
    """A leaf of one row, as integers (or -1 where it is something else)."""
    import numpy as np
    a = np.atleast_1d(np.asarray(v, np.float64))
    return [int(x) if x == int(x) else -1 for x in a.reshape(-1)]


def observe(res, shape, rng, numpy_aux, keys):
    """What infer_fn returned, row by row."""
    import jax
    import numpy as np
    hasaux = shape in ('aux', 'auxnest', 'auxtuple', 'auxfrozen', 'noaux')
    aux = None
    if hasaux and isinstance(res, tuple):
        res, aux = res
    idx, outs = [], []
    kinds = set()
    is_row = lambda v: isinstance(v, list) and (not v or not isinstance(v[0], dict))
    for pair in res:
        i, o = pair
        idx.append(int(i))
        outs.append(o)
    lens, build = SHAPES[shape]
    rows, kk, shapes = [], [], set()
    for r, o in enumerate(outs):
        if hasaux:
            o = (o, jax.tree_util.tree_map(lambda v: v[r], aux, is_leaf=lambda v: isinstance(v, (list, np.ndarray))))
        # the structure, with the rows of arrays as leaves
        want = build([Leaf(j) for j in range(len(lens))])
        flat = match(want, o)
        shapes.add(flat is not None)
        if flat is None:
            return dict(idx=idx, out=[], shape='another', aux='', keys=[])
        ls = [ints(flat[j]) for j in range(len(lens))]
        if rng:
            t = ls[0].pop()
            kk.append(0 if t == 0 else keys.setdefault(t, len(keys) + 1))
        else:
            kk.append(0)
        rows.append(ls)
    if hasaux and aux is not None:
        al = jax.tree_util.tree_leaves(aux, is_leaf=lambda v: isinstance(v, (list, np.ndarray)))
        for v in al:
            kinds.add('rows of numpy' if isinstance(v, list) and all(isinstance(e, (np.ndarray, np.generic)) for e in v) else
                      'lists' if isinstance(v, list) and not any(isinstance(e, (np.ndarray, np.generic)) for e in v) else
                      'other')
    return dict(idx=idx, out=rows, shape=shape, aux=' '.join(sorted(kinds)), keys=kk)


class Leaf:
    def __init__(self, j):
        self.j = j


def match(want, got):
    """Leaves of got by their number in want, None if it has another structure."""
    if isinstance(want, Leaf):
        return {want.j: got}
    if type(want) is not type(got) or len(want) != len(got):
        return None
    if hasattr(want, 'keys'):
        if sorted(want) != sorted(got):
            return None
        parts = [match(want[k], got[k]) for k in want]
    else:
        parts = [match(a, b) for a, b in zip(want, got)]
    if any(p is None for p in parts):
        return None
    return {k: v for p in parts for k, v in p.items()}


def cases(item):
    import jax
    import numpy as np
    import tensorflow as tf
    from t5x import partitioning, utils
    install()
    seed, part, num = item
    r = random.Random('c12 %d %d' % (seed, part))
    out = []
    for _ in range(num):
        multi = r.random() < .6
        shape = r.choice(sorted(SHAPES))
        rng, mut = r.random() < .5, r.random() < .4
        keyed = rng and r.random() < .8
        w, m = r.randint(2, 9) * 1000, r.randint(1, 900) if mut else 0
        numpy_aux = r.random() < .5
        P = jax.sharding.PartitionSpec
        axes = types.SimpleNamespace(params=dict(w=P()), flax_mutables=dict(m=P()) if mut else None)
        state = types.SimpleNamespace(params=dict(w=np.int32(w)), flax_mutables=dict(m=np.int32(m)) if mut else None)
        if multi:
            S = r.choice([1, 2, 2, 3, 4])
            H = S * r.choice([1, 1, 2]) if S < 4 else S
            batch = S * r.choice([1, 2, 3])
        else:
            S = H = 1
            p = r.choice([1, 2, 4, 8])
            batch = 8 // p * r.choice([1, 2])
        n = r.choice([1, 2, batch, batch + 1, 2 * batch, max(1, 2 * batch - 1), 3 * batch, r.randint(1, 20)])
        rows = [r.randint(0, 9) if r.random() < .3 else 10 + i for i in range(n)]
        step = make_step(shape, rng, mut)

        def ds():
            x = np.asarray([[c, 0] for c in rows], np.int32)
            return tf.data.Dataset.from_tensor_slices(dict(x=x, y=np.zeros((n,), np.int32))).enumerate()
        key = jax.random.PRNGKey(r.randrange(1000)) if keyed else None

        def fn(h):
            if multi:
                pt = types.SimpleNamespace(
                    partition=lambda f, in_axis_resources, out_axis_resources: jax.jit(f),
                    data_partition_spec=P('data'), mesh=None,
                    get_data_layout=lambda b=None, *a, **k: partitioning.DataLayout(
                        batch_size=b // S, shard_id=h % S, num_shards=S, is_first_host_in_replica_set=h < S))
            else:
                pt = partitioning.PjitPartitioner(num_partitions=p)
            f = utils.get_infer_fn(step, batch, axes, pt, keep_aux_as_numpy=numpy_aux)
            res = [f(ds(), state, key) for _ in range(2)]
            return res
        if multi:
            sim = Sim(H, S)
            res = sim.run(fn)
        else:
            res = [fn(0)]
        keys = {}
        hosts = [observe(x[0], shape, rng, numpy_aux, keys) for x in res]
        again = observe(res[0][1], shape, rng, numpy_aux, keys)
        lens = SHAPES[shape][0]
        hasaux = shape in ('aux', 'auxnest', 'auxtuple', 'auxfrozen')
        out.append(dict(rows=rows, w=w, m=m, lens=[max(1, x) for x in lens], shape=shape, batch=batch,
                        keyed=keyed, aux=('rows of numpy' if numpy_aux else 'lists') if hasaux else '',
                        hosts=hosts, again=again, S=S, H=H))
    return out


def run(chk):
    st = tlc.check('InferMC', cfg(spec='Spec', constants=dict(MaxN=chk.n(5, 7), MaxShards=chk.n(2, 3), MaxPer=2,
                                                              MaxHosts=chk.n(2, 3)),
                                  invariants=['Together', 'Paired'], properties=['Done'], deadlock=False))
    chk.spec('InferMC', st)
    allc = []
    for c in pool.pmap(chk, 'harness.checks.c12', 'cases', [(chk.seed, i, chk.n(40, 400)) for i in range(8)], procs=8, devices=8):
        allc += c or []
    bad, n = tlc.judge('Infer', allc, op='Ok')
    for b in bad:
        chk.violation('case %d' % b, str(allc[b])[:1500], allc[b])
    chk.validated(n, allc[-1] if allc else None)
    chk.note(hosts=sorted(set((c['S'], c['H']) for c in allc)), shapes=sorted(set(c['shape'] for c in allc)))
