"""Planted bugs for C10."""
T = 't5x/trainer.py'
DEMO = """
import boot; boot.setup()
import threading, time
import jax, jax.numpy as jnp, numpy as np
from t5x import trainer, metrics
LOG = []
class Writer:
    delay = 0
    def write_scalars(self, step, d):
        LOG.append(('begin', step, {k: float(v) for k, v in d.items()}))
        time.sleep(self.delay)
        LOG.append(('end', step))
    def flush(self): LOG.append(('flush',))
    def close(self): LOG.append(('close',))
    def __getattr__(self, k):
        if k.startswith('write_'): return lambda *a, **b: None
        raise AttributeError(k)
W = Writer()
trainer.metric_writers.create_default_writer = lambda *a, **b: W
mm = trainer.MetricsManager('m', None)
class Slow:
    def __init__(self, s): self.s = s
    def block_until_ready(self):
        time.sleep(self.s); return self
%s
"""
SEEDS = [
    dict(id='c10-two-summary-workers', property='C10',
         edits=[(T, '        thread_name_prefix="MetricsManager", max_workers=1\n',
                 '        thread_name_prefix="MetricsManager", max_workers=2\n')],
         needs='a summary whose write is slow while the next one is ready',
         breaks='Summaries can be written out of order.',
         demo=DEMO % """class SlowSum(metrics.Sum):
    def compute(self):
        if float(self.total) == 1: time.sleep(0.5)
        return jnp.array(self.total)
for i in (1, 2):
    mm.start_duration_timer()
    mm.write_metrics_summary({'v': SlowSum(jnp.asarray(float(i)))}, i, 1)
mm.flush()
assert [e[1] for e in LOG if e[0] == 'begin'] == [1, 2], LOG"""),
    dict(id='c10-flush-before-join', property='C10',
         edits=[(T, """    try:
      self._summary_pool.join()
    finally:
      if self._writer:
        self._writer.flush()
""", """    try:
      if self._writer:
        self._writer.flush()
    finally:
      self._summary_pool.join()
""")],
         needs='flushing while a summary is still queued',
         breaks='The summaries that flush waited for are not flushed.',
         demo=DEMO % """W.delay = 0.3
mm.start_duration_timer()
mm.write_metrics_summary({'v': metrics.Sum(jnp.asarray(1.))}, 1, 1)
mm.flush()
assert [e[0] for e in LOG] == ['begin', 'end', 'flush'], LOG"""),
    dict(id='c10-timer-stop-early', property='C10',
         edits=[(T, '    stop_future = self._get_completion_future(block_on)\n    return self._pool(lambda: stop_future.result() - start_future.result())()\n',
                 '    stop_future = self._get_completion_future()\n    return self._pool(lambda: stop_future.result() - start_future.result())()\n')],
         needs='metrics that are still being computed when the summary is requested',
         breaks='The duration ends before the steps do, so rates are too high.',
         demo=DEMO % """import flax
from clu import metrics as cm
@flax.struct.dataclass
class Tick(cm.Metric):
    leaf: object = None
    def compute(self): return jnp.zeros(())
mm.start_duration_timer()
r = mm.write_metrics_summary({'d': metrics.Time(), 't': Tick(Slow(0.5))}, 1, 1).result()
assert float(r['d'].value) >= 0.4, r"""),
    dict(id='c10-unlocked-scalar', property='C10',
         edits=[(T, '    with self._writer_lock:\n      assert self._writer is not None\n      self._writer.write_scalars(step, scalars)\n',
                 '    assert self._writer is not None\n    self._writer.write_scalars(step, scalars)\n')],
         needs='a single value written while a summary is being written',
         breaks='The writer is used by two threads at once.',
         demo=DEMO % """W.delay = 0.5
mm.start_duration_timer()
mm.write_metrics_summary({'v': metrics.Sum(jnp.asarray(1.))}, 1, 1)
while not LOG: time.sleep(0.01)
mm.write_scalar('x', 1.0, 2)
mm.flush()
assert [e[0] for e in LOG] == ['begin', 'end', 'begin', 'end', 'flush'], LOG"""),
    dict(id='c10-packed-first-position', property='C10',
         edits=[('t5x/models.py', '  num_padded_examples = jnp.sum(segment_ids[:, -1] == 0)\n',
                 '  num_padded_examples = jnp.sum(jnp.any(segment_ids[:, -1] == 0))\n')],
         needs='more than one padded row in a packed batch',
         breaks='The effective batch size counts padding as examples.',
         demo=DEMO % """from t5x import models
m = models.compute_base_metrics(jnp.zeros((3, 2, 4)), jnp.zeros((3, 2), jnp.int32), jnp.ones((3, 2)), jnp.zeros(()),
                                segment_ids={'targets': jnp.asarray([[1, 0], [1, 0], [1, 2]])})
assert int(m['effective_batch_size/targets'].total) == 4, m['effective_batch_size/targets']"""),
]
