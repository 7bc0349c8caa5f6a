"""Planted bugs for C04."""
CK = 't5x/checkpoints.py'
ZOO = """
import boot; boot.setup(8)
import os, tempfile
import numpy as np, jax.numpy as jnp
import zoo
from t5x import checkpoints
d = tempfile.mkdtemp()
def diff(a, b):
    a, b = zoo.leaves(a), zoo.leaves(b)
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b
            or a[k].dtype != b[k].dtype or not np.array_equal(a[k], b[k])]
"""
SEEDS = [
    dict(id='c04-opt-state-cast', property='C04',
         edits=[(CK, "      restore_dtype = self.restore_dtype if k == 'target' else None\n      state_dict[k]",
                 "      restore_dtype = None if k == 'flax_mutables' else self.restore_dtype\n      state_dict[k]")],
         needs='a restore_dtype narrower than the optimizer state, with an optimizer that keeps '
               'floating-point state',
         breaks='Restoring with restore_dtype rounds the optimizer state (and casts the step) as '
                'well as the parameters.',
         files=['harness/zoo.py'],
         demo=ZOO + """
st = zoo.fill(zoo.state('adam'), 5)
p = zoo.partitioner(2, 4)
checkpoints.Checkpointer(st, p, d).save(zoo.place(p, zoo.fill(st, 5)))
r = checkpoints.Checkpointer(st, p, d, restore_dtype=jnp.bfloat16).restore()
bad = [k for k in diff(st, r) if not k.startswith('target/')]
print(bad)
os._exit(1 if bad else 0)
"""),
    dict(id='c04-load-step-zero', property='C04',
         edits=[(CK, "    step = latest_step(path) if step is None else step\n",
                 "    step = step or latest_step(path)\n")],
         needs='step 0 asked for while later checkpoints exist',
         breaks='Asking the model-free loader for step 0 returns the newest checkpoint.',
         files=['harness/zoo.py'],
         demo=ZOO + """
p = zoo.partitioner(1, 1)
a, b = (zoo.fill(zoo.state('sgd'), s) for s in (0, 10))
c = checkpoints.Checkpointer(a, p, d)
c.save(a); c.save(b)
bad = diff(a, checkpoints.load_t5x_checkpoint(d, step=0))
print(bad)
os._exit(1 if bad else 0)
"""),
    dict(id='c04-orbax-own-directory', property='C04',
         edits=[(CK, "    restored = self._manager.restore(step, args=args, directory=directory)\n",
                 "    restored = self._manager.restore(step, args=args)\n")],
         needs='a restore by path from another directory while the own directory holds a '
               'checkpoint of the same step (or is empty)',
         breaks='Restoring an Orbax checkpoint by path takes the data-iterator position of the same '
                'step in the job own directory (or fails when there is none).',
         files=['harness/zoo.py'],
         demo=ZOO + """
import tensorflow as tf
from clu.data import dataset_iterator as di
mk = lambda: di.TfDatasetIterator(tf.data.Dataset.range(100).map(lambda x: {'x': x}), checkpoint=True)
p = zoo.partitioner(1, 1)
st = zoo.fill(zoo.state('adam'), 10)
e = tempfile.mkdtemp()
for x, n in ((d, 3), (e, 6)):
    it = mk()
    for _ in range(n): next(it)
    m = checkpoints.OrbaxCheckpointManagerInterface(x, st, p, it)
    m.save(st); m.wait_until_finished(); m.close()
it = mk()
m = checkpoints.OrbaxCheckpointManagerInterface(e, st, p, it)
try:
    bad = diff(st, m.restore(path=d + '/checkpoint_10')) or int(next(it)['x']) != 3
except Exception as ex:
    bad = repr(ex)
print(bad)
os._exit(1 if bad else 0)
"""),
    dict(id='c04-iterator-of-newest', property='C04',
         edits=[(CK, """      self._dataset_iterator.load(
          os.path.join(ckpt_dir, self._dataset_ckpt_name)
      )
""", """      iterator_dir = ckpt_dir if path else self._get_checkpoint_dir(
          self.latest_step()
      )
      self._dataset_iterator.load(
          os.path.join(iterator_dir, self._dataset_ckpt_name)
      )
""")],
         needs='an older step asked for by number, with data-iterator checkpointing, while a '
               'newer checkpoint exists',
         breaks='Restoring an older step takes the data-iterator position of the newest one.',
         files=['harness/zoo.py'],
         demo=ZOO + """
import tensorflow as tf
from clu.data import dataset_iterator as di
mk = lambda: di.TfDatasetIterator(tf.data.Dataset.range(100).map(lambda x: {'x': x}), checkpoint=True)
p = zoo.partitioner(1, 1)
st = zoo.fill(zoo.state('sgd'), 0)
it = mk()
c = checkpoints.Checkpointer(st, p, d, it)
for s in (2, 4):
    next(it); next(it)
    c.save(zoo.fill(st, s))
it2 = mk()
checkpoints.Checkpointer(st, p, d, it2).restore(step=2)
x = int(next(it2)['x'])
print(x)
os._exit(0 if x == 2 else 1)
"""),
]
