"""C26: lazy arrays load on demand only, with the declared shape and dtype.

Behaviours of spec/LazyArray.tla (casts, rewrites of the stored array, demands
in several modes) are replayed on real lazy arrays: of both classes, built
directly and by lazy restores of real checkpoints.  Rewriting the storage
between restore and demand shows whether a value was read too early.
"""
import asyncio
import concurrent.futures as cf
import os
import shutil
import tempfile

from harness import pool, tlc

DEVICES = 2
MAXVER = 3
KINDS = ['threadpool', 'awaitable', 'awaitable_uint16', 'classic', 'classic_f32', 'classic_bf16',
         'load', 'load_bf16', 'load_f32', 'load_raw', 'transformed']
DTS = ['f32', 'bf16', 'f16']


def run(chk):
    base = dict(Sources={1, 2}, Dts=set(DTS[:2]))
    chk.spec('LazyArray', tlc.check('LazyArray', tlc.cfg(
        spec='Spec', constants=dict(base, MaxHandles=3, MaxVer=2, MaxOps=chk.n(5, 7)),
        invariants=['TypeOK', 'OnDemand'], properties=['CastIsPure', 'Fresh'])))
    num = chk.n(110, 1500)
    beh = tlc.simulate('LazyArray', tlc.cfg(spec='Spec', constants=dict(
        Sources={1, 2, 3}, Dts=set(DTS), MaxHandles=6, MaxVer=MAXVER, MaxOps=14)), num, 15, chk.seed)
    items = [(i, [s['out'] for s in b[1:]]) for i, b in enumerate(beh)]
    n = 0
    groups = [items[k::8] for k in range(8)]
    for r in pool.pmap(chk, 'harness.checks.c26', 'replay_many', groups, procs=8, devices=DEVICES):
        for res in r or []:
            bad, ops, sample = res
            n += ops
            for k, w, d in bad:
                chk.violation(k, w, d)
            chk.validated(1, sample)
    chk.note(operations_replayed=n, lazy_array_sources=KINDS)
    chk.assumptions += ['values held in the checkpoint index file (not partitioned) are read with it, '
                        'so rewriting is only applied to separately stored arrays',
                        'a chain of casts may round at every step or only to the last dtype']


_CK = {}


def checkpoints_of(kind):
    """Three checkpoints of the same step and structure, different values."""
    import jax.numpy as jnp
    from harness import zoo
    from t5x import checkpoints
    save = {'classic_f32': jnp.bfloat16, 'load_f32': jnp.bfloat16}.get(kind, jnp.float32)
    key = str(save)
    if key not in _CK:
        p = zoo.partitioner(2, 1)
        dirs = []
        for v in range(1, MAXVER + 1):
            d = tempfile.mkdtemp()
            st = zoo.fill(zoo.fill(zoo.state('adafactor', mutables=True), 0), v)
            lv = zoo.leaves(st)
            lv['state/step'] = lv['state/step'] * 0 + 5
            checkpoints.Checkpointer(st, p, d, save_dtype=save).save(zoo.restore_leaves(st, lv))
            dirs.append(d + '/checkpoint_5')
        _CK[key] = dirs
    return _CK[key]


def replay_many(items):
    return [replay(i) for i in items]


def stored(i, path):
    """Leaves kept in arrays of their own, three of them, varying with i."""
    names = sorted(x for x in os.listdir(path) if x != 'checkpoint')
    names = [x for x in names if x.startswith('target') or 'v_row' in x or x.startswith('state')]
    t = [x for x in names if x.startswith('target')]
    s = [x for x in names if not x.startswith('target')]
    return [t[i % len(t)], t[(i + 3) % len(t)] if len(t) > 3 else t[0], (s or t)[i % len(s or t)]]


def replay(item):
    import jax.numpy as jnp
    import numpy as np
    from harness import zoo
    from t5x import checkpoint_importer as ci
    from t5x import checkpoints
    i, ops = item
    kind = KINDS[i % len(KINDS)]
    dts = {'f32': jnp.float32, 'bf16': jnp.bfloat16, 'f16': jnp.float16}
    bad = []
    work = None
    src = {}      # source -> version -> eager value
    handles = []
    cur = {1: 1, 2: 1, 3: 1}

    if kind in ('threadpool', 'awaitable', 'awaitable_uint16'):
        for s in (1, 2, 3):
            shape = [(), (5,), (2, 3)][s - 1]
            dt = [np.float32, np.float32, np.int32][s - 1]
            src[s] = {v: zoo.value('s%d' % s, shape, v, dt) for v in range(1, MAXVER + 1)}
            if kind == 'threadpool':
                handles.append(ci.LazyThreadPoolArray(
                    shape, dt, lambda s=s: np.array(src[s][cur[s]])))
            elif kind == 'awaitable':
                async def fn(s=s):
                    await asyncio.sleep(0)
                    return np.array(src[s][cur[s]])
                handles.append(ci.LazyAwaitableArray.from_array(src[s][1], fn))
            else:
                import tensorstore as ts
                src[s] = {v: np.asarray(jnp.asarray(a).astype(jnp.bfloat16)) for v, a in src[s].items()}

                async def fn(s=s):
                    await asyncio.sleep(0)
                    return src[s][cur[s]]
                spec = ts.Spec({'driver': 'zarr', 'kvstore': {'driver': 'memory'}, 'dtype': 'uint16',
                                'metadata': {'shape': list(shape), 'chunks': [max(1, x) for x in shape],
                                             'dtype': '<u2'}})
                handles.append(ci.LazyAwaitableArray.from_tensor_store_spec_or_array(spec, fn))
    else:
        dirs = checkpoints_of(kind)
        names = stored(i, dirs[0])
        work = tempfile.mkdtemp()
        path = work + '/checkpoint_5'
        shutil.copytree(dirs[0], path)
        rdt = jnp.bfloat16 if kind.endswith('bf16') else jnp.float32 if kind.endswith('f32') else None
        p = zoo.partitioner(2, 1, on_devices=False)
        tmpl = zoo.fill(zoo.state('adafactor', mutables=True), 0)

        def restore(where, lazy):
            if kind.startswith('load'):
                return checkpoints.load_t5x_checkpoint(where, restore_dtype=rdt, lazy_parameters=lazy,
                                                       remap=kind != 'load_raw')
            fns = []
            if kind == 'transformed':
                def f(sd, target):
                    del target
                    sd = dict(sd)
                    return sd
                fns = [f]
            kw = dict(state_transformation_fns=fns) if fns else {}
            st = checkpoints.Checkpointer(tmpl, p, work, restore_dtype=rdt).restore(
                path=where, lazy_parameters=lazy, **kw)
            return st.state_dict()

        # the stored arrays are out of reach while the handles are made
        os.makedirs(work + '/hidden')
        arrays = [x for x in os.listdir(path) if x != 'checkpoint']
        for x in arrays:
            os.rename('%s/%s' % (path, x), '%s/hidden/%s' % (work, x))
        try:
            lazy = zoo.flat(restore(path, True))
        except Exception as e:  # pylint: disable=broad-except
            shutil.rmtree(work, ignore_errors=True)
            return [('early:' + kind, '%s: a lazy restore touches the stored arrays: %s: %s' % (
                kind, type(e).__name__, str(e)[:150]), None)], 0, None
        for x in arrays:
            os.rename('%s/hidden/%s' % (work, x), '%s/%s' % (path, x))
        eager = {v: zoo.flat(restore(dirs[v - 1], False)) for v in (range(1, MAXVER + 1) if any(
            o['op'] == 'swap' for o in ops) else (1,))}
        # every leaf of the state: declared and demanded
        for k, a in sorted(lazy.items()):
            e = eager[1].get(k)
            if e is None:
                continue
            e = np.asarray(e)
            if tuple(a.shape) != e.shape or jnp.dtype(a.dtype) != e.dtype:
                bad.append(('declares:' + kind, '%s: lazy %s declares %s%s, the eager value is %s%s' % (
                    kind, k, a.dtype, tuple(a.shape), e.dtype, e.shape), None))
        files = {n.replace('.', '/'): n for n in names}
        for s, k in zip((1, 2, 3), files if len(files) == 3 else [n.replace('.', '/') for n in names]):
            src[s] = {v: np.asarray(eager[v][k]) for v in eager}
            handles.append(lazy[k])

        rest = {k: a for k, a in lazy.items() if hasattr(a, 'get') and k not in files}

    def value(chain, s, v):
        """Possible values of a chain of casts."""
        a = src[s][v]
        if not chain:
            return [a]
        x = jnp.asarray(a)
        one = np.asarray(x.astype(dts[chain[-1]]))
        for dt in chain:
            x = x.astype(dts[dt])
        return [one, np.asarray(x)]

    def check(got, chain, s, vers, mode):
        got = np.asarray(got)
        cands = [w for v in sorted(vers) for w in value(chain, s, v)]
        if got.dtype != cands[0].dtype or got.shape != cands[0].shape:
            bad.append(('yields:' + kind, '%s/%s yields %s%s, declared %s%s' % (
                kind, mode, got.dtype, got.shape, cands[0].dtype, cands[0].shape), ops))
        elif not any(np.array_equal(got, c, equal_nan=got.dtype.kind == 'f') for c in cands):
            bad.append(('value:' + kind, '%s/%s yields a value the storage did not hold at the '
                        'demand (versions %s)' % (kind, mode, sorted(vers)), ops))

    def demand(hs, mode):
        if mode == 'get':
            return [a.get() for a in hs]
        if mode == 'async':
            return [asyncio.run(a.get_async()) for a in hs]
        if mode == 'threads':
            with cf.ThreadPoolExecutor(4) as ex:
                return list(ex.map(lambda a: a.get(), hs))

        async def g():
            return await asyncio.gather(*[a.get_async() for a in hs])
        return asyncio.run(g())

    meta = [dict(src=s, chain=[]) for s in (1, 2, 3)]
    done = 0
    for op in ops:
        done += 1
        if op['op'] == 'cast':
            a = handles[op['i'] - 1]
            handles.append(a.astype(dts[op['dt']]))
            meta.append(dict(src=meta[op['i'] - 1]['src'], chain=meta[op['i'] - 1]['chain'] + [op['dt']]))
        elif op['op'] == 'swap':
            s = op['src']
            if work is not None:
                n = names[s - 1]
                same = [t for t in (1, 2, 3) if names[t - 1] == n]
                if len(same) > 1:
                    break
                shutil.rmtree(path + '/' + n)
                shutil.copytree(dirs[op['ver'] - 1] + '/' + n, path + '/' + n)
            cur[s] = op['ver']
        elif op['op'] == 'declare':
            a = handles[op['i'] - 1]
            m = meta[op['i'] - 1]
            w = value(m['chain'], m['src'], 1)[0]
            if tuple(a.shape) != w.shape or jnp.dtype(a.dtype) != w.dtype or a.nbytes != w.nbytes:
                bad.append(('declares:' + kind, '%s declares %s%s/%s bytes, expected %s%s' % (
                    kind, a.dtype, tuple(a.shape), a.nbytes, w.dtype, w.shape), ops))
        elif op['op'] == 'get':
            m = meta[op['i'] - 1]
            k = 3 if op['mode'] in ('threads', 'gather') else 1
            for got in demand([handles[op['i'] - 1]] * k, op['mode']):
                check(got, m['chain'], m['src'], op['vers'], op['mode'])
        elif op['op'] == 'getall':
            for j, got in enumerate(demand(handles, op['mode'])):
                check(got, meta[j]['chain'], meta[j]['src'], op['vers'][j], op['mode'])
        if bad:
            break
    if work is not None:
        if not bad:
            for k, a in sorted(rest.items()):
                got, e = np.asarray(a.get()), np.asarray(eager[1][k])
                if k in files:
                    continue
                if got.dtype != e.dtype or not np.array_equal(got, e):
                    bad.append(('value:' + kind, '%s: lazy %s yields something else than the eager '
                                'restore' % (kind, k), None))
        shutil.rmtree(work, ignore_errors=True)
    return bad, done, dict(kind=kind, ops=ops) if i < 2 else None
