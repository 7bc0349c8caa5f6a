"""C25: sharded data iterators feed every host the right rows and resume exactly.

The real get_dataset and prepare_train_iter run as every host of fake topologies
(and of real devices) through random histories of reading, peeking, saving,
restoring (into old and new iterators) and resetting; TLC validates what every
device was given (spec/DataFeedTrace.tla), and judges what the shards of training
and evaluation datasets hold together (spec/DataFeed.tla).
"""
import os
import random
import shutil
import tempfile
import time as time_module

from harness import pool, tlc
from harness.tlc import cfg


class Hosts:
    """Every host's iterator over one topology."""

    def __init__(self, c, kw, batch, real=None):
        from harness import zoo
        from harness.checks import c14
        from t5x import partitioning
        self.batch, self.real = batch, real
        # meshes of the same devices are one object; every host has its own
        self.n = 1 if real else 1 + max(d.process_index for d in c14.build(c)[0])
        self.devs = [None if real else c14.build(c)[0] for _ in range(self.n)]
        self.parts, self.layouts = [], []
        for h in range(self.n):
            with self.as_host(h):
                if real:
                    p = zoo.partitioner(*real)
                else:
                    p = partitioning.PjitPartitioner(**kw)
                self.parts.append(p)
                self.layouts.append(p.get_data_layout(batch))
        m = self.parts[0].mesh
        self.order = [d.id for d in m.devices.flat]
        where = {d.id: 0 if real else d.process_index for d in m.devices.flat}
        self.mesh = dict(names=list(m.axis_names), dims=list(m.devices.shape), hosts=[where[i] for i in self.order])

    def as_host(self, h):
        import contextlib
        from harness import topo
        if self.real:
            return contextlib.nullcontext()
        s = contextlib.ExitStack()
        s.enter_context(topo.world(self.devs[h], h))
        s.enter_context(topo.placement())
        return s

    def make(self, source):
        """source(layout): a dataset or an iterator."""
        from t5x import utils
        self.its = []
        for h in range(self.n):
            y = self.layouts[h]
            ds = source(y)
            with self.as_host(h):
                self.its.append(utils.prepare_train_iter(ds, partitioner=self.parts[h],
                                                         checkpoint_cfg=utils.CheckpointConfig(), data_layout=y))

    def read(self, how):
        """The examples on every device, in the order of the mesh; None when a host has no more."""
        from harness import feed
        got = {}
        dry = False
        peeked = []
        for h, it in enumerate(self.its):
            with self.as_host(h):
                try:
                    g = next(it) if how == 'next' else it.peek()
                except StopIteration:
                    dry = True
                    continue
            peeked += [(h, it)] * (how == 'peek')
            for k, v in g.items():
                if tuple(v.shape) != (self.batch,) + dict(a=(3,), b=(2, 2), c=())[k]:
                    return [[-2]] * len(self.order)
            if self.real:
                per = {k: {s.device.id: s.data for s in v.addressable_shards} for k, v in g.items()}
            else:
                per = {k: v.parts for k, v in g.items()}
            for d in per['c']:
                got[d] = feed.ids({k: v[d] for k, v in per.items()})
        if dry:
            for h, it in peeked:        # so that nothing peeked stays behind
                with self.as_host(h):
                    next(it)
        return None if dry else [got.get(d, [-3]) for d in self.order]


def config(name, batch, seed, shuffle, split='train', **kw):
    from harness import feed
    from t5x import utils
    return utils.DatasetConfig(mixture_or_task_name=name, task_feature_lengths=feed.LENGTHS, split=split,
                               batch_size=batch, shuffle=shuffle, seed=seed, **kw)


def pick_topology(r):
    """Devices that a partitioner accepts, and the rows a batch needs."""
    from harness.checks import c14
    from harness import topo
    from t5x import partitioning
    while True:
        c = c14.topologies(r.randrange(10**6), 1)[0]
        devs, kw = c14.build(c)
        if len(devs) > 16 or max(d.process_index for d in devs) > 3 or (r.random() < .6 and max(d.process_index for d in devs) == 0):
            continue
        try:
            with topo.world(devs, 0):
                p = partitioning.PjitPartitioner(**kw)
                p.get_data_layout()
                return c, kw, p.data_mesh_size
        except (AssertionError, ValueError):
            continue


def histories(seeds):
    from harness import env
    out = []
    for s in seeds:
        out += history(s)
    return out


def history(seed):
    from harness import feed
    from t5x import utils
    r = random.Random('c25 %d' % seed)
    real = None
    if seed % 5 == 0:
        real = r.choice([(1, 1), (2, 1), (4, 1), (8, 1), (2, 2), (4, 2), (1, 4), (2, 4)])
        c, kw, rows = dict(kind='real %s' % (real,)), {}, real[0]
    else:
        c, kw, rows = pick_topology(r)
    batch = rows * r.choice([1, 1, 2, 3])
    hosts = Hosts(c, kw, batch, real)
    shards = hosts.layouts[0].num_shards
    if batch % shards:
        return []
    per = batch // shards
    n = max(shards, r.choice([2, 3, 4, 7]) * batch + r.choice([0, 0, 1, -1, per]))
    shuffle, epochs = r.random() < .4, r.choice([1, 1, 2, None])
    name = feed.task(n)
    conv = feed.converter()
    conf = config(name, batch, r.randrange(1000), shuffle)
    script = []
    for s in range(shards):
        x = []
        for i, b in enumerate(utils.get_dataset(conf, s, shards, conv, epochs).as_numpy_iterator()):
            if i == 24:
                break
            x += feed.ids(b)
        script.append(x)
    memory = r.random() < .2

    def source(y):
        if memory:
            return feed.memory_iterator(script[y.shard_id], per)
        return utils.get_dataset(conf, y.shard_id, y.num_shards, conv, epochs)
    d = tempfile.mkdtemp(prefix='c25')
    ev = []
    try:
        hosts.make(source)
        saved = set()
        dry = False
        for _ in range(r.choice([8, 14, 18])):
            ops = ['next'] * 6 + ['peek'] + ['save', 'save'] + (['restore', 'fresh'] * 2 if saved else []) + ([] if shuffle else ['reset'])
            if dry:
                ops = [o for o in ops if o in ('restore', 'fresh', 'reset')]
                if not ops:
                    break
            op = r.choice(ops)
            if op == 'peek':
                x = hosts.read('peek')
                if x is None:
                    ev.append(dict(op='dry'))
                    dry = True
                    continue
                ev.append(dict(op='peek', rows=x))
                op = 'next'
            if op == 'next':
                x = hosts.read('next')
                if x is None:
                    ev.append(dict(op='dry'))
                    dry = True
                else:
                    ev.append(dict(op='next', rows=x))
            elif op == 'save':
                k = r.choice([1, 2])
                for h, it in enumerate(hosts.its):
                    with hosts.as_host(h):
                        it.save(os.path.join(d, 'slot%d_%d' % (k, h)))
                saved.add(k)
                ev.append(dict(op='save', slot=k))
            elif op in ('restore', 'fresh'):
                k = r.choice(sorted(saved))
                if op == 'fresh':
                    hosts.make(source)
                for h, it in enumerate(hosts.its):
                    with hosts.as_host(h):
                        it.restore(os.path.join(d, 'slot%d_%d' % (k, h)))
                dry = False
                ev.append(dict(op='restore', slot=k))
            else:
                for h, it in enumerate(hosts.its):
                    with hosts.as_host(h):
                        it.reset()
                dry = False
                ev.append(dict(op='reset'))
    finally:
        shutil.rmtree(d)
    data = ['replica', 'data'] if c['kind'] == 'slices' else ['data']
    return [dict(feed=dict(mesh=hosts.mesh, data=data, per=per, script=script), slots=2, ev=ev,
                 how='%s batch %d shards %d n %d shuffle %s epochs %s memory %s' % (c, batch, shards, n, shuffle, epochs, memory))]


class Clocks:
    """Hosts whose clocks differ, and the agreement of host 0 that they share."""

    def __init__(self):
        self.first = {}

    def __enter__(self):
        from jax.experimental import multihost_utils as mu
        self.old = mu.broadcast_one_to_all, mu.assert_equal, time_module.time
        self.host = 0
        self.base = self.old[2]()

        def broadcast(x, *a, **k):
            self.calls += 1
            return self.first.setdefault(('b', self.calls), x)

        def same(x, msg='', *a, **k):
            import jax
            import numpy as np
            self.calls += 1
            y = self.first.setdefault(('e', self.calls), x)
            if any(not np.array_equal(p, q) for p, q in zip(jax.tree.leaves(x), jax.tree.leaves(y))):
                raise AssertionError(msg)
        mu.broadcast_one_to_all, mu.assert_equal = broadcast, same
        time_module.time = lambda: self.base + 1000 * self.host
        return self

    def be(self, host):
        self.host, self.calls = host, 0

    def __exit__(self, *a):
        from jax.experimental import multihost_utils as mu
        mu.broadcast_one_to_all, mu.assert_equal, time_module.time = self.old


def sources(seeds):
    out = []
    for s in seeds:
        out += source_case(s)
    return out


def source_case(seed):
    from harness import feed
    from t5x import utils
    r = random.Random('c25s %d' % seed)
    conv = feed.converter()
    shards = r.choice([1, 2, 2, 3, 4])
    batch = shards * r.choice([1, 2, 3]) + (r.choice([0, 1]) if r.random() < .3 else 0)
    n = max(shards, r.choice([1, 2, 3, 5]) * batch + r.choice([0, 1, 2, -1]))
    shuffle = r.random() < .5
    out = []
    epochs, read = r.choice([1, 2, 3, None]), r.choice([3, 7])
    name = feed.task(n)
    case = dict(what='source', n=n, batch=batch, shards=shards, epochs=epochs or 0, read=read, shuffle=shuffle, raised=False, parts=[])
    conf = config(name, batch, None if shuffle and r.random() < .6 else r.randrange(100), shuffle)
    case['how'] = str(case) + ' seed %s' % conf.seed
    try:
        with Clocks() as cl:
            for s in range(shards):
                cl.be(s)
                ds = utils.get_dataset(conf, s, shards, conv, epochs)
                x = []
                for b in ds.as_numpy_iterator():
                    x.append(feed.ids(b))
                    if epochs is None and len(x) == read:
                        break
                case['parts'].append(x)
    except ValueError:
        case.update(raised=True, parts=[])
    out.append(case)
    # evaluations during training
    k = r.choice([1, 1, 2, 3])
    steps = r.choice([1, 2, 4])
    having = [r.random() < .7 for _ in range(k)]
    having[r.randrange(k)] = True
    sizes = [r.choice([1, 2, 5, 9]) for _ in range(k)]
    names = [feed.task(m, ['train', 'validation'] if v else ['train']) for m, v in zip(sizes, having)]
    mix = k > 1 or r.random() < .3
    if mix and not all(having):
        # a mixture's own dataset needs the split of every task
        having = [True] * k
        names = [feed.task(m, ['train', 'validation']) for m in sizes]
    asked = feed.mixture(names) if mix else names[0]
    cache = r.random() < .5
    conf = config(asked, batch, r.randrange(100), r.random() < .3, split='validation', use_memory_cache=cache)
    base = dict(what='eval', batch=batch, shards=shards, steps=steps, raised=False, parts=[], same=True, mixed=False, whole=[])
    per = {}
    try:
        with Clocks() as cl:
            for s in range(shards):
                cl.be(s)
                dss = utils.get_training_eval_datasets(conf, s, shards, steps, conv)
                if s == 0:
                    whole = {nm: [feed.ids(b) for b in ds.as_numpy_iterator()]
                             for nm, ds in utils.get_training_eval_datasets(conf, 0, 1, steps, conv).items()}
                for nm, ds in dss.items():
                    x = [feed.ids(b) for b in ds.as_numpy_iterator()]
                    again = x if conf.shuffle and not cache else [feed.ids(b) for b in ds.as_numpy_iterator()]
                    e = per.setdefault(nm, dict(base, n=dict(zip(names, sizes)).get(nm, 1), mixed=nm not in names or conf.shuffle, parts=[], same=True, whole=whole[nm]))
                    e['parts'].append(x)
                    e['same'] = e['same'] and x == again
        out += list(per.values())
        num = {}
        out.append(dict(what='names', names=[num.setdefault(x, len(num)) for x in per],
                        having=[num.setdefault(x, len(num)) for x, v in zip(names, having) if v],
                        mixture=[num.setdefault(asked, len(num))] if mix else []))
    except ValueError:
        out.append(dict(base, n=1, raised=True))
    for c in out:
        c.setdefault('how', 'evaluation: sizes %s steps %d batch %d shards %d cache %s shuffle %s' % (sizes, steps, batch, shards, cache, conf.shuffle))
    return out


def run(chk):
    for d, m, n in chk.n([(4, 2, 10), (2, 4, 9), (3, 2, 13)], [(4, 2, 17), (2, 4, 13), (3, 2, 14), (6, 1, 13), (1, 4, 7)]):
        st = tlc.check('DataFeedMC', cfg(spec='Spec', constants=dict(D=d, M=m, Per=tlc.Raw('{1,2,3}'), N=n, Slots=tlc.Raw(chk.n('{1}', '{1,2}'))),
                                         invariants=['OnceEach', 'AllRead', 'OwnRows', 'Again']))
        chk.spec('DataFeedMC %dx%d, %d examples' % (d, m, n), st)
    num = chk.n(160, 1600)
    seeds = [chk.seed * 100000 + i for i in range(num)]
    hist = []
    for h in pool.pmap(chk, 'harness.checks.c25', 'histories', [seeds[i::32] for i in range(32)], procs=8, devices=8):
        hist += h or []
    reached, st = tlc.validate('DataFeedTrace', cfg(spec='TSpec', constraints=['Track'], postcondition='Report'),
                               [dict(feed=h['feed'], slots=h['slots'], ev=h['ev']) for h in hist])
    chk.spec('DataFeedTrace', st)
    for h, k in zip(hist, reached):
        if k != len(h['ev']):
            chk.violation('history', '%s: event %d of %s' % (h['how'], k, str(h['ev'])[:1500]), h)
    chk.validated(len(hist), hist[-1] if hist else None)
    num = chk.n(200, 1500)
    seeds = [chk.seed * 100000 + i for i in range(num)]
    cases = []
    for c in pool.pmap(chk, 'harness.checks.c25', 'sources', [seeds[i::32] for i in range(32)], procs=8, devices=1):
        cases += c or []
    bad, n = tlc.judge('DataFeedCases', cases, op='OkData')
    for b in bad:
        chk.violation(cases[b]['what'], '%s: %s' % (cases[b]['how'], str(cases[b])[:1200]), cases[b])
    chk.validated(n, cases[0] if cases else None)
    chk.note(histories=len(hist), events=sum(len(h['ev']) for h in hist), datasets=len(cases),
             hosts=sorted({max(h['feed']['mesh']['hosts']) + 1 for h in hist}))
