"""Planted bugs for C26."""
CI = 't5x/checkpoint_importer.py'
CK = 't5x/checkpoints.py'
SEEDS = [
    dict(id='c26-shared-event-loop', property='C26',
         edits=[(CI, """  def get(self) -> ScalarOrArrayType:
    return asyncio.run(self.get_async())
""", """  # Starting a loop per read is slow: share one.
  _loop = asyncio.new_event_loop()

  def get(self) -> ScalarOrArrayType:
    return self._loop.run_until_complete(self.get_async())
""")],
         needs='two threads reading lazy arrays at the same time',
         breaks='Concurrent reads of lazily restored arrays fail (the event loop is already running).',
         files=[],
         demo="""
import boot; boot.setup()
import asyncio, os, threading, time
import numpy as np
from t5x import checkpoint_importer as ci
async def slow():
    await asyncio.sleep(0.3)
    return np.ones((2,), np.float32)
a = [ci.LazyAwaitableArray((2,), np.float32, slow) for _ in range(3)]
out = []
def read(x):
    try:
        out.append(x.get())
    except Exception as e:
        print(repr(e))
ts = [threading.Thread(target=read, args=(x,)) for x in a]
[t.start() for t in ts]; [t.join() for t in ts]
os._exit(0 if len(out) == 3 else 1)
"""),
    dict(id='c26-small-arrays-read-early', property='C26',
         edits=[(CK, """    get_fn = functools.partial(
        _read_ts,
        param_info,
        maybe_ts_spec,
        ckpt_path=ckpt_path,
        restore_dtype=restore_dtype,
        params_on_devices=False,
    )
    return""", """    get_fn = functools.partial(
        _read_ts,
        param_info,
        maybe_ts_spec,
        ckpt_path=ckpt_path,
        restore_dtype=restore_dtype,
        params_on_devices=False,
    )
    if isinstance(maybe_ts_spec, ts.Spec) and (
        len(maybe_ts_spec.to_json()['metadata']['shape']) == 1
    ):
      # Vectors are small: not worth a deferred read.
      maybe_ts_spec = asyncio.run(get_fn())
    return""")],
         needs='a lazy load with one-dimensional arrays in storage',
         breaks='Storage is read while the lazy arrays are created, before any value is demanded.',
         files=['harness/zoo.py'],
         demo="""
import boot; boot.setup(2)
import os, shutil, tempfile
import zoo
from t5x import checkpoints
d = tempfile.mkdtemp()
st = zoo.fill(zoo.state('sgd'), 5)
p = zoo.partitioner(2, 1)
checkpoints.Checkpointer(st, p, d).save(st)
for n in os.listdir(d + '/checkpoint_5'):
    if n != 'checkpoint':
        os.rename(d + '/checkpoint_5/' + n, d + '/moved_' + n)
try:
    lazy = checkpoints.load_t5x_checkpoint(d + '/checkpoint_5', lazy_parameters=True)
except Exception as e:
    print(repr(e)[:300]); os._exit(1)
for n in os.listdir(d):
    if n.startswith('moved_'):
        os.rename(d + '/' + n, d + '/checkpoint_5/' + n[6:])
a, b = zoo.leaves(lazy), zoo.leaves(st)
os._exit(0 if all((a[k] == b[k]).all() for k in b) else 1)
"""),
    dict(id='c26-cast-declares-only', property='C26',
         edits=[(CI, """      arr = await self._get_fn()  # pytype: disable=bad-return-type
      if arr.dtype != self.dtype:
        arr = arr.astype(self.dtype)
      return arr
""", """      arr = await self._get_fn()  # pytype: disable=bad-return-type
      if arr.dtype.itemsize != np.dtype(self.dtype).itemsize:
        arr = arr.astype(self.dtype)
      return arr
""")],
         needs='a lazy array cast between dtypes of the same size (float16/bfloat16, int32/float32)',
         breaks='A lazy array yields another dtype than it declares.',
         files=[],
         demo="""
import boot; boot.setup()
import os
import numpy as np, jax.numpy as jnp
from t5x import checkpoint_importer as ci
async def f():
    return np.arange(4, dtype=np.int32)
a = ci.LazyAwaitableArray((4,), np.int32, f).astype(jnp.float32)
x = a.get()
print(a.dtype, x.dtype)
os._exit(0 if x.dtype == a.dtype else 1)
"""),
]
