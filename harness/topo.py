"""Fake accelerators: runs partitioning code as any host of a topology."""
import contextlib
import itertools


class Client:
    """The runtime of the host that is being played."""
    me = 0
    platform = runtime_type = platform_version = 'fake'

    def process_index(self):
        return self.me


CLIENT = Client()


class Device:
    """One device, as far as mesh construction looks at it."""

    def __init__(self, id, process_index, kind, platform, coords=None, core=None, slice_index=0):
        self.id, self.process_index, self.device_kind, self.platform = id, process_index, kind, platform
        self.slice_index = slice_index
        self.client = CLIENT
        if coords is not None:
            self.coords, self.core_on_chip = coords, core

    def __repr__(self):
        return 'D%d' % self.id


def tpu(g, l, order=None, kind='TPU v3', shuffle=None):
    """Devices of a grid g (x, y, z, cores) with hosts of l; order maps host cells to process indices."""
    hosts = list(itertools.product(*[range(a // b) for a, b in zip(g[:3], l[:3])]))
    hosts = sorted(hosts, key=lambda h: h[::-1])        # x is the fastest
    num = {h: (order[i] if order else i) for i, h in enumerate(hosts)}
    out = []
    for z, y, x, c in itertools.product(range(g[2]), range(g[1]), range(g[0]), range(g[3])):
        h = num[(x // l[0], y // l[1], z // l[2])]
        out.append(Device(len(out), h, kind, 'tpu', (x, y, z), c))
    if shuffle:
        last = out.pop()
        shuffle.shuffle(out)
        out.append(last)
    return out


def boxes(hosts, per, kind='cpu', slices=1):
    """Hosts with some devices each, and no coordinates."""
    return [Device(i, i // per, kind, kind, slice_index=(i // per) * slices // hosts) for i in range(hosts * per)]


@contextlib.contextmanager
def world(devices, me):
    """The process of host me of a topology."""
    import jax
    from jax._src import xla_bridge as xb
    mine = [d for d in devices if d.process_index == me]
    fakes = dict(
        devices=lambda backend=None: list(devices),
        local_devices=lambda process_index=None, backend=None, host_id=None: [
            d for d in devices if d.process_index == (me if process_index is None else process_index)],
        process_index=lambda backend=None: me,
        process_count=lambda backend=None: len({d.process_index for d in devices}),
        device_count=lambda backend=None: len(devices),
        local_device_count=lambda backend=None: len(mine))
    old = [(m, n, getattr(m, n)) for m in (jax, xb) for n in fakes]
    for m, n, _ in old:
        setattr(m, n, fakes[n])
    was, CLIENT.me = CLIENT.me, me
    try:
        yield
    finally:
        CLIENT.me = was
        for m, n, f in old:
            setattr(m, n, f)


class Global:
    """An array over all devices, of which only the parts on one host were given."""

    def __init__(self, shape, sharding, parts):
        self.shape, self.sharding, self.parts = tuple(shape), sharding, dict(parts)


class Piece:
    def __init__(self, value, device):
        import numpy as np
        self.value, self.device = np.array(value), device
        self.shape, self.dtype = self.value.shape, self.value.dtype


@contextlib.contextmanager
def placement():
    """Arrays on fake devices are only noted down."""
    import jax
    import numpy as np
    from jax.experimental import multihost_utils
    real_put = jax.device_put

    def local(sharding):
        return [d for d in sharding.mesh.devices.flat if d.process_index == CLIENT.me]

    def put(x, device=None, *a, **k):
        if isinstance(device, Device):
            return Piece(x, device)
        return real_put(x, device, *a, **k)

    def single(shape, sharding, arrays, *a, **k):
        want = {d.id for d in local(sharding)}
        if {p.device.id for p in arrays} != want or len(arrays) != len(want):
            raise ValueError('arrays for other devices than those of the host')
        for p in arrays:
            if p.shape != tuple(sharding.shard_shape(tuple(shape))):
                raise ValueError('array of shape %s on a device' % (p.shape,))
        return Global(shape, sharding, {p.device.id: p.value for p in arrays})

    def callback(shape, sharding, fn, *a, **k):
        idx = sharding.devices_indices_map(tuple(shape))
        return Global(shape, sharding, {d.id: np.array(fn(idx[d])) for d in local(sharding)})

    def process_local(sharding, data, global_shape=None):
        data = np.asarray(data)
        n = len({str(v[0]) for v in sharding.devices_indices_map((len(list(sharding.mesh.devices.flat)) * data.shape[0],) + data.shape[1:]).values()})
        if global_shape is None:
            here = len({str(sharding.devices_indices_map((n,))[d]) for d in local(sharding)})
            global_shape = (data.shape[0] * n // here,) + data.shape[1:]
        idx = sharding.devices_indices_map(tuple(global_shape))
        start = min((idx[d][0].start or 0) for d in local(sharding))
        out = {}
        for d in local(sharding):
            s = idx[d][0]
            lo = s.start or 0
            hi = global_shape[0] if s.stop is None else s.stop
            out[d.id] = data[lo - start:hi - start]
        return Global(global_shape, sharding, out)

    def host_local(tree, mesh, spec):
        return jax.tree.map(lambda x: process_local(jax.sharding.NamedSharding(mesh, spec), x), tree)
    fakes = [(jax, 'device_put', put), (jax, 'make_array_from_single_device_arrays', single),
             (jax, 'make_array_from_callback', callback), (jax, 'make_array_from_process_local_data', process_local),
             (multihost_utils, 'host_local_array_to_global_array', host_local)]
    old = [(m, n, getattr(m, n)) for m, n, _ in fakes]
    for m, n, f in fakes:
        setattr(m, n, f)
    try:
        yield
    finally:
        for m, n, f in old:
            setattr(m, n, f)
