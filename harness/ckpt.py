"""Driver for checkpointing: hosts as threads, controlled schedules, crashes.

Every host of a simulated job is a thread with its own Checkpointer.  The
scheduler lets exactly one thread run at a time and regains control at each
file-system operation, array write, iterator save and cross-host barrier; at
each such boundary the checkpoint directory is projected to the abstract state
of CkptStore.tla.  A crash aborts every host at a boundary.
"""
import asyncio
import collections
import hashlib
import os
import random
import re
import shutil
import threading
import time

import jax
import numpy as np
import tensorflow as tf
import tensorstore as ts
from jax.experimental import multihost_utils
from jax.experimental.array_serialization import serialization as array_serialization
from jax.sharding import Mesh, NamedSharding, PartitionSpec as PS

gfile = tf.io.gfile
_LOCAL = threading.local()
_real = {}


class Crash(BaseException):
    """The simulated process died."""


class Protocol(Exception):
    """The hosts did not agree on a barrier, or are stuck."""


# --------------------------------------------------------------------------
# Scheduler
# --------------------------------------------------------------------------
class Sched:
    def __init__(self, nhosts, policy, crash_at=None, observe=None, max_ops=20000):
        self.n = nhosts
        self.policy = policy
        self.crash_at = crash_at
        self.observe = observe
        self.count = 0
        self.dead = False
        self.state = ['ready'] * nhosts      # ready | barrier | done
        self.bname = [None] * nhosts
        self.bval = [None] * nhosts
        self.result = [None] * nhosts
        self.go = [threading.Semaphore(0) for _ in range(nhosts)]
        self.ctl = threading.Semaphore(0)
        self.error = None
        self.ops = []
        self.max_ops = max_ops
        self.pending = [''] * nhosts

    # called in host threads
    def pause(self, kind):
        h = _LOCAL.host
        if self.dead:
            raise Crash()
        self.pending[h] = kind
        self.ctl.release()
        self.go[h].acquire()
        if self.dead:
            raise Crash()

    def barrier(self, name, val=None):
        h = _LOCAL.host
        if self.dead:
            raise Crash()
        self.state[h] = 'barrier'
        self.bname[h] = name
        self.bval[h] = val
        self.pending[h] = 'barrier'
        self.ctl.release()
        self.go[h].acquire()
        if self.dead:
            raise Crash()
        return self.result[h]

    def _thread(self, h, fn):
        _LOCAL.host = h
        _LOCAL.sched = self
        self.go[h].acquire()
        try:
            if not self.dead:
                fn(h)
        except Crash:
            pass
        except BaseException as e:  # pylint: disable=broad-except
            if not self.dead:
                self.error = (h, e)
        self.state[h] = 'done'
        self.ctl.release()

    def run(self, fn):
        threads = [threading.Thread(target=self._thread, args=(h, fn), daemon=True)
                   for h in range(self.n)]
        for t in threads:
            t.start()
        while True:
            if self.error:
                break
            if all(s == 'done' for s in self.state):
                break
            if all(s in ('barrier', 'done') for s in self.state):
                waiting = [h for h in range(self.n) if self.state[h] == 'barrier']
                names = {self.bname[h] for h in waiting}
                if len(waiting) != self.n or len(names) != 1:
                    self.error = (-1, Protocol('hosts stuck at different barriers: %s' % {
                        h: (self.state[h], self.bname[h]) for h in range(self.n)}))
                    break
                v0 = self.bval[0]
                for h in waiting:
                    self.result[h] = v0
                    self.state[h] = 'ready'
                self.ops.append(('release', -1))
                continue
            if self.observe:
                self.observe()
            if self.crash_at is not None and self.count >= self.crash_at:
                break
            ready = [h for h in range(self.n) if self.state[h] == 'ready']
            h = self.policy(ready, self)
            self.count += 1
            if self.count > self.max_ops:
                self.error = (-1, Protocol('no end after %d operations' % self.count))
                break
            self.ops.append((self.pending[h], h))
            self.pending[h] = 'run'
            self.go[h].release()
            if not self.ctl.acquire(timeout=120):
                self.error = (h, Protocol('host %d blocked outside any barrier after %s' % (
                    h, self.ops[-1][0])))
                break
        crashed = not self.error and not all(s == 'done' for s in self.state)
        self.dead = True
        for h in range(self.n):
            if self.state[h] != 'done':
                self.go[h].release()
        for t in threads:
            t.join(timeout=30)
        if self.observe:
            self.observe()
        return crashed


def random_policy(rng):
    return lambda ready, s: rng.choice(ready)


def priority_policy(order):
    return lambda ready, s: min(ready, key=order.index)


def pct_policy(rng, n, depth=3, length=120):
    """Random priorities with a few change points (PCT)."""
    order = list(range(n))
    rng.shuffle(order)
    points = set(rng.sample(range(length), depth))

    def pick(ready, s):
        h = min(ready, key=order.index)
        if s.count in points:
            order.remove(h)
            order.append(h)
            h = min(ready, key=order.index)
        return h
    return pick


def script_policy(picks):
    """Follows a sequence of host picks generated by TLC, then round robin."""
    it = iter(picks)

    def pick(ready, s):
        for h in it:
            if h in ready:
                return h
        return ready[s.count % len(ready)]
    return pick


# --------------------------------------------------------------------------
# Patches: every patched function pauses the calling host before it acts.
# --------------------------------------------------------------------------
def _sched():
    return getattr(_LOCAL, 'sched', None)


def _pause(kind):
    s = _sched()
    if s is not None:
        s.pause(kind)


class _File:
    """GFile whose writes become visible in two pieces."""

    def __init__(self, name, mode='r'):
        self._s = _sched()
        self._w = self._s is not None and ('w' in mode or 'a' in mode)
        if self._s is not None:
            self._s.pause('open:' + mode)
        self._f = _real['GFile'](name, mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __iter__(self):
        return iter(self._f)

    def close(self):
        if self._w and self._s.dead:
            return
        self._f.close()

    def write(self, data):
        if not self._w:
            return self._f.write(data)
        k = len(data) // 2
        self._f.write(data[:k])
        self._f.flush()
        self._s.pause('write')
        self._f.write(data[k:])


def _mk(name):
    def f(*a, **k):
        _pause(name)
        return _real[name](*a, **k)
    return f


def _rmtree(path):
    path = os.fspath(path)
    if _sched() is None or not os.path.isdir(path):
        return _real['rmtree'](path)
    files = []
    for root, dirs, fs in os.walk(path):
        files += [os.path.join(root, x) for x in fs]
    files.sort()
    _LOCAL.sched.rm_rng.shuffle(files) if hasattr(_LOCAL.sched, 'rm_rng') else None
    step = max(1, len(files) // 4)
    for i in range(0, len(files), step):
        _pause('rm')
        for x in files[i:i + step]:
            os.remove(x)
    _pause('rmdir')
    _real['rmtree'](path)


def _process_index(*a, **k):
    h = getattr(_LOCAL, 'host', None)
    return h if h is not None else _real['process_index'](*a, **k)


def _process_count(*a, **k):
    s = _sched()
    return s.n if s is not None else _real['process_count'](*a, **k)


def _sync(name):
    s = _sched()
    if s is None:
        return _real['sync'](name)
    s.barrier(str(name))
    return None


def _broadcast(x, is_source=None):
    s = _sched()
    if s is None:
        return _real['broadcast'](x)
    return s.barrier('broadcast', x)


OWNER = {}   # device id -> host, for the current number of hosts


async def _async_serialize(arr, spec, *a, **k):
    """JAX's contract: each host writes its addressable shards of replica 0."""
    s = _sched()
    if s is None:
        return await _real['async_serialize'](arr, spec, *a, **k)
    me = _LOCAL.host
    _pause('ts_open')
    t = await ts.open(spec, create=True, open=True)
    for sh in arr.addressable_shards:
        if sh.replica_id == 0 and owner(sh.device, s.n) == me:
            _pause('ts_write')
            await t[sh.index].write(np.asarray(sh.data))


def owner(device, nhosts):
    nd = len(jax.devices())
    return jax.devices().index(device) * nhosts // nd


def install():
    if _real:
        return
    for n in ['exists', 'makedirs', 'rename', 'rmtree', 'remove', 'listdir', 'glob',
              'isdir', 'copy', 'mkdir', 'stat', 'GFile']:
        _real[n] = getattr(gfile, n)
    for n in ['exists', 'makedirs', 'rename', 'remove', 'listdir', 'glob', 'isdir',
              'copy', 'mkdir', 'stat']:
        setattr(gfile, n, _mk(n))
    gfile.rmtree = _rmtree
    gfile.GFile = _File
    _real['process_index'] = jax.process_index
    _real['process_count'] = jax.process_count
    jax.process_index = _process_index
    jax.process_count = _process_count
    _real['sync'] = multihost_utils.sync_global_devices
    _real['broadcast'] = multihost_utils.broadcast_one_to_all
    multihost_utils.sync_global_devices = _sync
    multihost_utils.broadcast_one_to_all = _broadcast
    _real['async_serialize'] = array_serialization.async_serialize
    array_serialization.async_serialize = _async_serialize


# --------------------------------------------------------------------------
# Stand-ins for the job around the checkpointer
# --------------------------------------------------------------------------
class FakeIter:
    """A data iterator with the save/load interface the checkpointer uses."""

    def __init__(self, host, pos=0):
        self.host = host
        self.pos = pos

    def save(self, filename):
        _pause('ds_open')
        with open(str(filename), 'w') as f:
            f.write('it')
        _pause('ds_write')
        with open(str(filename), 'w') as f:
            f.write('iterator %d %d' % (self.host, self.pos))

    def load(self, filename):
        with open(str(filename)) as f:
            w = f.read().split()
        if len(w) != 3:
            raise ValueError('torn iterator state in %s' % filename)
        self.loaded = (int(w[1]), int(w[2]))
        self.pos = int(w[2])

    restore = load


def make_state(step, kind='mixed'):
    """A train state whose every leaf identifies the step it belongs to."""
    from flax.core import freeze
    from t5x import optimizers, train_state
    mesh = Mesh(np.array(jax.devices()), ('data',))
    nd = len(jax.devices())

    def val(leaf, shape):
        return (np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape)
                + 1000 * step + 100 * leaf)

    w = jax.device_put(val(1, (nd, 2)), NamedSharding(mesh, PS('data')))
    r = jax.device_put(val(2, (2,)), NamedSharding(mesh, PS(None)))
    b = val(3, (3,))
    m = jax.device_put(val(4, (nd, 2)), NamedSharding(mesh, PS('data')))
    params = freeze({'layer': {'w': w, 'r': r}, 'b': b})
    pst = freeze({'layer': {'w': {'m': m}, 'r': {'m': val(5, (2,))}}, 'b': {'m': val(6, (3,))}})
    opt_def = _Opt()
    st = optimizers.OptimizerState(np.asarray(step, np.int32), pst)
    return train_state.FlaxOptimTrainState(
        optimizers.Optimizer(opt_def, st, params))


class _Opt:
    """Minimal optimizer definition: state dict conversion only."""
    hyper_params = None

    def __new__(cls):
        from t5x import optimizers

        class Opt(optimizers.OptimizerDef):
            def __init__(self):
                super().__init__(None)

            def init_state(self, params):
                raise NotImplementedError

            def apply_gradient(self, *a):
                raise NotImplementedError
        key = '_cls'
        if not hasattr(_Opt, key):
            setattr(_Opt, key, Opt)
        return getattr(_Opt, key)()


def axes_like(state):
    sd = state.state_dict()

    def ax(path):
        if path[-1] == 'step':
            return None
        name = '/'.join(path)
        if 'w' in path:
            return PS('data')
        if name == 'target/b' or 'state/param_states/b' in name:
            return None
        return PS(None)
    import flax.traverse_util as tu
    flat = tu.flatten_dict(sd)
    return state.restore_state(tu.unflatten_dict({k: ax(k) for k in flat}))


class FakePartitioner:
    """Host h of n, data-parallel, one data shard per host (or per host group)."""
    params_on_devices = True
    move_params_to_devices = None

    def __init__(self, host, nhosts, num_shards=None):
        self.host, self.n = host, nhosts
        self.num_shards = num_shards or nhosts
        self.mesh = Mesh(np.array(jax.devices()), ('data',))

    def get_data_layout(self, batch_size=None):
        from t5x import partitioning
        group = self.n // self.num_shards
        return partitioning.DataLayout(
            batch_size=batch_size, shard_id=self.host // group,
            num_shards=self.num_shards,
            is_first_host_in_replica_set=self.host % group == 0)

    def get_mesh_axes(self, state):
        return axes_like(state)

    def get_local_chunk_info(self, shape, axes):
        from t5x import partitioning
        return partitioning.LocalChunkInfo(
            slice=tuple(slice(None) for _ in shape), replica_id=self.host)


def flat_np(state):
    import flax.traverse_util as tu
    out = {}
    for k, v in tu.flatten_dict(state.state_dict()).items():
        if hasattr(v, 'get') and hasattr(v, 'get_async'):
            v = v.get()
        out['/'.join(k)] = np.asarray(v)
    return out


def same(a, b):
    return (a.keys() == b.keys() and
            all(a[k].shape == b[k].shape and a[k].dtype == b[k].dtype
                and np.array_equal(a[k], b[k]) for k in a))


# --------------------------------------------------------------------------
# Projection of the directory
# --------------------------------------------------------------------------
_FINAL = re.compile(r'^checkpoint_(\d+)$')
_COMPLETE = {}    # what restoring a directory with a given content gives


def digest(d):
    h = hashlib.sha1()
    for root, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            try:
                with open(p, 'rb') as fh:
                    data = fh.read()
            except OSError:
                continue
            if f == 'PINNED':
                continue
            h.update(os.path.relpath(p, d).encode() + b'\0' + data + b'\0')
    return h.hexdigest()


class Job:
    """A model directory plus the operations of a (restartable) job on it."""

    def __init__(self, root, nhosts=1, num_shards=None, with_ds=True, make=None,
                 rng=None, kind=None):
        self.root = root
        os.makedirs(root, exist_ok=True)
        self.n = nhosts
        self.num_shards = num_shards or nhosts
        self.with_ds = with_ds
        self.make = make or self._legacy
        self.cache = _COMPLETE.setdefault((self.num_shards, with_ds), {})
        self.trace = []
        self.last = None
        self.observations = 0
        self.rets = False      # record every host's return from a save
        self.rng = rng or random.Random(0)
        self.value = {}        # step -> state identity that was saved (steps may repeat)

    def _legacy(self, host, it, **kw):
        from t5x import checkpoints
        return checkpoints.Checkpointer(
            make_state(0), FakePartitioner(host, self.n, self.num_shards),
            self.root, dataset_iterator=it, **kw)

    def iterator(self, host, pos=0):
        return FakeIter(host // (self.n // self.num_shards), pos) if self.with_ds else None

    # -- projection
    def _complete(self, step, d):
        """Restores a copy of the directory as every host would."""
        key = (step, digest(d))
        if key in self.cache:
            return self.cache[key]
        from t5x import checkpoints
        tmp = d + '.probe'
        parent = os.path.join(os.path.dirname(self.root), 'probe')
        shutil.rmtree(parent, ignore_errors=True)
        os.makedirs(parent)
        cp = os.path.join(parent, 'checkpoint_%d' % step)
        shutil.copytree(d, cp)
        ok, why = True, ''
        try:
            ck = checkpoints.Checkpointer(
                make_state(0), FakePartitioner(0, self.n, self.num_shards), parent)
            got = flat_np(ck.restore(step=step))
            if not same(got, flat_np(make_state(step))):
                ok, why = False, 'values differ'
        except Exception as e:  # pylint: disable=broad-except
            ok, why = False, '%s: %s' % (type(e).__name__, str(e)[:150])
        ds = True
        if self.with_ds:
            for sh in range(self.num_shards):
                p = os.path.join(cp, 'train_ds-%03d-of-%03d' % (sh, self.num_shards))
                try:
                    it = FakeIter(0)
                    it.load(p)
                    ds = ds and it.loaded == (sh, step)
                except Exception:  # pylint: disable=broad-except
                    ds = False
        shutil.rmtree(parent, ignore_errors=True)
        self.cache[key] = (ok, ds, why)
        return self.cache[key]

    def project(self):
        out = []
        for name in os.listdir(self.root):
            m = _FINAL.match(name)
            d = os.path.join(self.root, name)
            if not m or not os.path.isdir(d):
                continue
            s = int(m.group(1))
            try:
                ok, ds, _ = self._complete(s, d)
            except FileNotFoundError:
                continue
            from t5x import checkpoint_utils
            with quiet():
                pin = bool(checkpoint_utils.is_pinned_checkpoint(d))
            out.append({'s': s, 'ok': ok, 'ds': ds, 'pin': pin})
        return sorted(out, key=lambda r: r['s'])

    def observe(self):
        self.observations += 1
        p = self.project()
        if p != self.last:
            self.last = p
            self.emit('vis', st=p)

    def emit(self, e, **kw):
        r = {'e': e, 's': -1, 'st': []}
        r.update(kw)
        self.trace.append(r)

    def pin(self, step, on=True):
        from t5x import checkpoint_utils
        d = os.path.join(self.root, 'checkpoint_%d' % step)
        self.observe()
        with quiet():
            (checkpoint_utils.pin_checkpoint if on else checkpoint_utils.unpin_checkpoint)(d)
        self.emit('pin' if on else 'unpin', s=step)
        self.observe()

    # -- operations
    def save(self, step, policy=None, crash_at=None, ck=None, **kw):
        """One collective save of `step`; returns ('ok'|'crash'|'error', detail)."""
        policy = policy or priority_policy(list(range(self.n)))
        self.observe()
        self.emit('start', s=step)
        st = make_state(step)
        sched = Sched(self.n, policy, crash_at, self.observe)
        sched.rm_rng = self.rng

        def host(h):
            c = ck[h] if ck else self.make(h, self.iterator(h, step), **kw)
            if ck and self.with_ds:
                _iter_of(c).pos = step
            c.save(st)
            if self.rets and not sched.dead:
                with quiet():
                    self.observe()
                self.emit('ret', s=step)
        crashed = sched.run(host)
        self.sched = sched
        if sched.error:
            self.emit('error')
            return 'error', sched.error
        if crashed:
            self.emit('crash')
            return 'crash', sched.count
        self.emit('end', s=step)
        return 'ok', sched.count

    def restore(self, step=None, **kw):
        """Every host restores; records what was obtained."""
        self.observe()
        got = set()
        for h in range(self.n):
            it = self.iterator(h)
            try:
                c = self.make(h, it, **kw)
                r = c.restore(step=step) if step is not None else c.restore()
                v = flat_np(r)
                s = int(v['state/step'])
                if not same(v, flat_np(make_state(s))):
                    got.add('mixed')
                elif it is not None and it.pos != s:
                    got.add('iterator')
                else:
                    got.add(s)
            except Exception as e:  # pylint: disable=broad-except
                got.add('%s: %s' % (type(e).__name__, str(e)[:120]))
        self.restored = got
        g = got.pop() if len(got) == 1 else 'hosts disagree'
        got.add(g)
        self.emit('restore', s=-1 if step is None else step,
                  got=g if isinstance(g, int) else -2, why=str(g))
        return g


def _iter_of(c):
    return c._dataset_iterator  # the fake passed to the constructor


class quiet:
    """Code under test called by the observer: no scheduling."""

    def __enter__(self):
        self.s = getattr(_LOCAL, 'sched', None)
        _LOCAL.sched = None

    def __exit__(self, *a):
        _LOCAL.sched = self.s
