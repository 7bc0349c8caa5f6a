"""Planted bugs for C14."""
P = 't5x/partitioning.py'
F = ['harness/topo.py']
DEMO = """
import boot; boot.setup()
import topo
from t5x import partitioning
def hosts(devs, fn, **kw):
  out = []
  for h in range(1 + max(d.process_index for d in devs)):
    with topo.world(devs, h):
      out.append(fn(partitioning.PjitPartitioner(**kw)))
  return out
def rows_on_devices(devs, p, h, batch):
  \"\"\"Rows of a batch that lie on the devices of a host.\"\"\"
  axes = p.mesh.axis_names
  grid = p.mesh.devices.reshape(-1, p.mesh.devices.shape[-1])     # all but 'model' shard the batch
  per = batch // len(grid)
  return {r for i, line in enumerate(grid) for d in line if d.process_index == h for r in range(i * per, (i + 1) * per)}
def check(devs, batch, **kw):
  ls = hosts(devs, lambda p: (p, p.get_data_layout(batch)), **kw)
  for h, (p, l) in enumerate(ls):
    per = batch // l.num_shards
    assert rows_on_devices(devs, p, h, batch) == set(range(l.shard_id * per, (l.shard_id + 1) * per)), (h, l)
  for s in range(ls[0][1].num_shards):
    assert sum(l.is_first_host_in_replica_set for _, l in ls if l.shard_id == s) == 1, s
%s
"""
SEEDS = [
    dict(id='c14-shard-order', property='C14', files=F,
         edits=[(P, "    for mesh_axis in sharded_mesh_axes:\n      chunk_id = self.chunk_ids[mesh_axis]\n      shard_id = shard_id * self.num_chunks[mesh_axis] + chunk_id\n",
                 "    stride = 1\n    for mesh_axis in sharded_mesh_axes:\n      shard_id += self.chunk_ids[mesh_axis] * stride\n      stride *= self.num_chunks[mesh_axis]\n")],
         needs='several slices with several hosts each',
         breaks='A host reads the rows of a shard other than the one that lies on its devices.',
         demo=DEMO % "check(topo.boxes(4, 2, slices=2), 8, num_partitions=2, ici_mesh_shape=(1, 2, 2), dcn_mesh_shape=(2, 1, 1))"),
    dict(id='c14-uneven-batch', property='C14', files=F,
         edits=[(P, "    if batch_size % self.data_mesh_size:\n      raise ValueError(\n          f'Batch size ({batch_size}) must be divisible by corresponding '\n          f'data mesh size ({self.data_mesh_size}).'\n      )\n\n", "")],
         needs='hosts with several devices along the data axis and a batch divisible by the hosts only',
         breaks='A batch that can not be divided among the devices is accepted.',
         demo=DEMO % """try:
  hosts(topo.boxes(2, 4), lambda p: p.get_data_layout(6), num_partitions=1, ici_mesh_shape=(1, 8, 1), dcn_mesh_shape=(1, 1, 1))
except ValueError:
  raise SystemExit(0)
raise SystemExit('accepted')"""),
    dict(id='c14-first-by-index', property='C14', files=F,
         edits=[(P, "        is_first_host_in_replica_set=(replica_id == 0),\n", "        is_first_host_in_replica_set=(\n            replica_id == 0 or jax.process_index() < int(self.data_shards)\n        ),\n")],
         needs='model parallelism across hosts whose indices do not run along the model axis last',
         breaks='Two hosts of one data shard are both its first host.',
         demo=DEMO % "check(topo.tpu((4, 4, 1, 1), (2, 2, 1, 1)), 8, model_parallel_submesh=(4, 1, 1, 1))"),
    dict(id='c14-tile-not-swapped', property='C14', files=F,
         edits=[(P, "      model_parallel_submesh = mz, my, mx, mc\n", "      model_parallel_submesh = mx, my, mz, mc\n")],
         needs='a three dimensional grid, model parallelism over all of x and z, which differ',
         breaks='Model-parallel groups are not boxes of the requested shape.',
         demo=DEMO % """devs = topo.tpu((2, 2, 4, 1), (2, 2, 1, 1))
p = hosts(devs, lambda p: p.mesh, model_parallel_submesh=(2, 1, 4, 1))[0]
for line in p.devices:
  ext = [len({d.coords[i] for d in line}) for i in range(3)]
  assert ext == [2, 1, 4], ext"""),
    dict(id='c14-tile-order', property='C14', files=F,
         edits=[(P, "        return (d // (l // m), l // m, 1, m)\n", "        return (l // m, d // (l // m), 1, m)\n")],
         needs='a grid in which a host spans several model-parallel tiles, and not as many as there are hosts',
         breaks='Devices of a host are spread over the mesh: it is rejected, or several hosts share what one should own.',
         demo=DEMO % "check(topo.tpu((8, 2, 1, 1), (2, 2, 1, 1)), 16, model_parallel_submesh=(1, 1, 1, 1))"),
    dict(id='c14-replica-sum', property='C14', files=F,
         edits=[(P, "      chunk_id = self.chunk_ids[mesh_axis]\n      replica_id = replica_id * self.num_chunks[mesh_axis] + chunk_id\n",
                 "      replica_id += self.chunk_ids[mesh_axis]\n")],
         needs='an array that is replicated along two mesh axes that both span hosts',
         breaks='Different replicas of a chunk get the same index.',
         demo=DEMO % """devs = topo.tpu((4, 4, 1, 1), (2, 2, 1, 1))
ids = hosts(devs, lambda p: p.get_local_chunk_info((4,), [None]).replica_id, model_parallel_submesh=(4, 1, 1, 1))
assert sorted(ids) == [0, 1, 2, 3], ids"""),
]
