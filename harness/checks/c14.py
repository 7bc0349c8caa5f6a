"""C14: partitioning assigns every array element and batch row to exactly one owner.

The real mesh construction, chunking and data layout run as every host of fake
topologies (grids of accelerators, hosts with GPUs or CPUs, several slices), and
TLC judges what all hosts say together (spec/Partition.tla).
"""
import itertools
import random

from harness import pool, tlc
from harness.tlc import cfg


def divs(n, most=99):
    return [d for d in range(1, min(n, most) + 1) if n % d == 0]


def topologies(seed, num):
    """Random topologies and how to partition them."""
    r = random.Random('c14 %d' % seed)
    out = []
    for i in range(num):
        kind = r.choice(['grid', 'grid', 'grid', 'default', 'gpu', 'cpu', 'slices'])
        if kind in ('grid', 'default'):
            while True:
                g = tuple(r.choice(c) for c in ([1, 2, 4, 8], [1, 2, 4, 6], [1, 1, 2, 4], [1, 2]))
                if g[0] * g[1] * g[2] * g[3] <= 64:
                    break
            l = tuple(r.choice(divs(n, 2 if r.random() < .9 else 4)) for n in g[:3]) + (g[3],)
            n = 1
            for a, b in zip(g, l):
                n *= a // b
            order = list(range(n))
            if r.random() < .3:         # the first host stays at the origin
                rest = order[1:]
                r.shuffle(rest)
                order = [0] + rest
            c = dict(kind=kind, grid=g, local=l, order=order, shuffle=r.random() < .2)
            if kind == 'grid':
                c['tile'] = tuple(r.choice(divs(x) if r.random() < .95 else [2, 3]) for x in g)
                c['device'] = 'TPU v3'
            else:
                c['device'] = 'TPU v4' if g[3] == 1 else 'TPU v3'
                c['partitions'] = r.choice([1, 2, 4, 8, 16])
        elif kind == 'gpu':
            per = r.choice([1, 2, 4, 8])
            hosts = r.choice([1, 2, 3, 4])
            p = r.choice([d for d in divs(per * hosts) if per % d == 0 or d % per == 0])
            c = dict(kind=kind, hosts=hosts, per=per, partitions=p)
        elif kind == 'cpu':
            c = dict(kind=kind, hosts=r.choice([1, 2, 3, 4]), per=r.choice([1, 2, 4]), partitions=1)
        else:
            per, s = r.choice([1, 2, 4]), r.choice([1, 2, 3])
            hs = r.choice([1, 2])
            n = per * hs
            mod = r.choice(divs(n))
            c = dict(kind=kind, hosts=s * hs, per=per, slices=s, ici=(1, n // mod, mod), dcn=(s, 1, 1))
        c['seed'] = r.randrange(10**6)
        out.append(c)
    return out


def every_grid(bound):
    out = []
    for g in [(4, 4, 1, 2), (2, 2, 4, 1), (4, 2, 2, 1), (2, 4, 2, 1), (2, 2, 2, 2), (8, 2, 1, 1), (4, 4, 2, 1), (4, 4, 4, 1)]:
        if g[0] * g[1] * g[2] * g[3] > bound:
            continue
        for l in itertools.product(*[divs(n, 2) for n in g[:3]]):
            for t in itertools.product(*[divs(x) for x in g]):
                out.append(dict(kind='grid', grid=g, local=l + (g[3],), order=None, tile=t, device='TPU v3', seed=len(out), shuffle=False))
    return out


def observe(item):
    return [one(c) for c in item]


def build(c):
    """Devices, and the partitioner's arguments."""
    from harness import topo
    if c['kind'] in ('grid', 'default'):
        devs = topo.tpu(c['grid'], c['local'], c['order'], c['device'], random.Random(c['seed']) if c['shuffle'] else None)
        return devs, dict(model_parallel_submesh=c['tile']) if c['kind'] == 'grid' else dict(num_partitions=c['partitions'])
    devs = topo.boxes(c['hosts'], c['per'], 'gpu' if c['kind'] == 'gpu' else 'cpu', c.get('slices', 1))
    kw = dict(num_partitions=c.get('partitions') or c['ici'][2])
    if c['kind'] == 'slices':
        kw.update(ici_mesh_shape=c['ici'], dcn_mesh_shape=c['dcn'])
    return devs, kw


def one(c):
    from harness import topo
    from t5x import partitioning
    r = random.Random(c['seed'])
    devs, kw = build(c)
    coords = {d.id: list(d.coords) + [d.core_on_chip] if hasattr(d, 'coords') else [] for d in devs}
    n = 1 + max(d.process_index for d in devs)
    rules = None
    data = ['replica', 'data'] if c['kind'] == 'slices' else ['data']
    base = dict(kind=c['kind'], grid=list(c.get('grid', [])), local=list(c.get('local', [])), tile=list(c.get('tile', [])),
                partitions=0 if c['kind'] in ('grid', 'cpu') else kw['num_partitions'], devices=len(devs), data=data,
                mayreject=c['kind'] == 'default', what=str(c))
    parts = []
    try:
        for h in range(n):
            with topo.world(devs, h):
                p = partitioning.PjitPartitioner(logical_axis_rules=rules, **kw)
                p.get_data_layout()
                parts.append(p)
    except (AssertionError, ValueError) as e:
        return dict(base, rejected='%s: %s' % (type(e).__name__, str(e)[:80]), mesh={}, coords=[], arrays=[], layouts=[])
    grids = [[d.id for d in p.mesh.devices.reshape(-1)] for p in parts]
    if any(g != grids[0] for g in grids):
        grids[0] = [-1]         # hosts disagree
    names = list(parts[0].mesh.axis_names)
    dims = list(parts[0].mesh.devices.shape)
    where = {d.id: d.process_index for d in devs}
    mesh = dict(names=names, dims=dims, ids=grids[0], hosts=[where.get(i, -1) for i in grids[0]])
    size = dict(zip(names, dims))
    arrays, layouts = [], []
    for _ in range(6):
        rank = r.choice([1, 2, 2, 3])
        free = list(names) + [None] * 3
        r.shuffle(free)
        axes = [free.pop() for _ in range(rank)]
        shape = [size.get(a, r.choice([1, 3])) * r.choice([1, 2, 3]) for a in axes]
        if r.random() < .25:
            i = r.randrange(rank)
            shape[i] = max(1, shape[i] + r.choice([-1, 1, 2]))
        ch, raised = [], False
        for h, p in enumerate(parts):
            with topo.world(devs, h):
                try:
                    i = p.get_local_chunk_info(tuple(shape), axes)
                    sl = [list(s.indices(k)[:2]) for s, k in zip(i.slice, shape)]
                    ch.append(dict(slice=sl if all(s.step in (None, 1) for s in i.slice) and len(i.slice) == rank else [],
                                   replica=int(i.replica_id)))
                except (ValueError, AssertionError):
                    raised = True
        arrays.append(dict(shape=shape, axes=[[a] if a else [] for a in axes], chunks=[] if raised else ch, raised=raised))
    total = 1
    for a in data:
        total *= size[a]
    for asked in {0, total, total * 2, total * 3, total + 1, max(1, total // 2), max(1, total * 2 - 1)}:
        hs, raised = [], False
        for h, p in enumerate(parts):
            with topo.world(devs, h):
                try:
                    y = p.get_data_layout(asked or None)
                    hs.append(dict(batch=y.batch_size, shard=y.shard_id, shards=y.num_shards,
                                   first=bool(y.is_first_host_in_replica_set)))
                except ValueError:
                    raised = True
        layouts.append(dict(asked=asked, raised=raised, hosts=[] if raised else hs))
    return dict(base, rejected='', mesh=mesh, coords=[coords.get(i, []) for i in grids[0]], arrays=arrays, layouts=layouts)


def run(chk):
    for d, m in chk.n([(4, 2), (3, 2), (2, 4)], [(4, 2), (3, 2), (2, 4), (4, 4), (6, 2), (1, 6)]):
        st = tlc.check('PartitionMC', cfg(spec='Spec', constants=dict(D=d, M=m), invariants=['Once', 'Whole'],
                                          properties=['Done'], deadlock=False))
        chk.spec('PartitionMC %dx%d' % (d, m), st)
    confs = every_grid(chk.n(16, 64)) + topologies(chk.seed, chk.n(900, 6000))
    cases = []
    for r in pool.pmap(chk, 'harness.checks.c14', 'observe', [confs[i::64] for i in range(64)], procs=8):
        cases += r or []
    bad, n = tlc.judge('Partition', cases, op='Ok')
    for b in bad:
        chk.violation('topology', str(cases[b])[:1500], cases[b])
    chk.validated(n, {k: v for k, v in cases[0].items() if k != 'coords'} if cases else None)
    chk.note(accepted=sum(not c['rejected'] for c in cases), rejected=sum(bool(c['rejected']) for c in cases),
             arrays=sum(len(c['arrays']) for c in cases), kinds=sorted(set(c['kind'] for c in cases)))
