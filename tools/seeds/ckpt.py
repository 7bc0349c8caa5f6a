"""Planted bugs for the checkpoint store (C01, C02, C03)."""
CK = 't5x/checkpoints.py'
SIM = '''
import boot; boot.setup(4)
import os, random, sys, tempfile
import ckpt
ckpt.install()
root = tempfile.mkdtemp()
'''
DS_BLOCK = '''    if self._should_write_dataset_ckpt:
      logging.info(
          "Writing dataset iterator state to '%s'.", self._dataset_ckpt_name
      )
      try:
        self._dataset_iterator.save(
            os.path.join(tmp_dir, self._dataset_ckpt_name)
        )
      except tf.errors.FailedPreconditionError as e:
        logging.error(
            'Input pipeline must be stateless in order to checkpoint. Cache '
            'stateful steps offline or disable iterator checkpointing.'
        )
        raise e

'''
BAR = '''    # Block until complete on all hosts.
    _sync_global_devices(f'checkpointer:tensorstore_write_complete:{tmp_dir}')

'''
SEEDS = [
    dict(id='c01-iter-after-barrier', property='C01',
         edits=[(CK, DS_BLOCK + BAR, BAR + DS_BLOCK)],
         needs='two or more hosts, iterator checkpointing, and a schedule in which host 0 '
               'finalises the directory before the other host has written its iterator state',
         breaks='A checkpoint becomes visible (renamed to its final name) while another host\'s '
                'data-iterator shard is missing, or that host fails writing to the vanished '
                'temporary directory.',
         files=['harness/ckpt.py'],
         demo=SIM + '''
job = ckpt.Job(root + '/m', 2, 2)
r, d = job.save(1, ckpt.priority_policy([0, 1]))
bad = [x for x in job.trace if x['e'] == 'vis' and any(not s['ds'] for s in x['st'])]
print(r, d, bad)
os._exit(1 if r != 'ok' or bad else 0)
'''),
    dict(id='c01-msgpack-after-rename', property='C01',
         edits=[(CK, '''      with gfile.GFile(os.path.join(tmp_dir, 'checkpoint'), 'wb') as fp:
        fp.write(msgpack_bytes)

''', ''),
                (CK, '''        gfile.rename(tmp_dir, final_dir)
      logging.info('Saved checkpoint for step %d to %s', step, final_dir)
''', '''        gfile.rename(tmp_dir, final_dir)
      with gfile.GFile(os.path.join(final_dir, 'checkpoint'), 'wb') as fp:
        fp.write(msgpack_bytes)
      logging.info('Saved checkpoint for step %d to %s', step, final_dir)
''')],
         needs='a crash between the rename and the end of the write of the msgpack file',
         breaks='A crash leaves a checkpoint visible under its final name whose msgpack file is '
                'missing or torn, so the restart cannot restore.',
         files=['harness/ckpt.py'],
         demo=SIM + '''
bad = 0
for k in range(0, 80):
    job = ckpt.Job(root + '/m%d' % k, 1, 1)
    job.save(1)
    r, d = job.save(2, None, k)
    g = job.restore()
    if g not in (1, 2):
        print('crash at', k, 'restore gives', g); bad += 1
    if r == 'ok':
        break
os._exit(1 if bad else 0)
'''),
    dict(id='c02-lexicographic-steps', property='C02',
         edits=[(CK, '''    for step in existing_steps[:to_remove]:
      checkpoint_utils.remove_checkpoint_dir(self._get_checkpoint_dir(step))

  def save(
      self,
      train_state: train_state_lib.TrainState,
      state_transformation_fns: Sequence[SaveStateTransformationFn] = (),
      *,
''', '''    for name in sorted(str(step) for step in existing_steps)[:to_remove]:
      checkpoint_utils.remove_checkpoint_dir(self._get_checkpoint_dir(int(name)))

  def save(
      self,
      train_state: train_state_lib.TrainState,
      state_transformation_fns: Sequence[SaveStateTransformationFn] = (),
      *,
''')],
         needs='steps with different numbers of digits (for example 9 then 10)',
         breaks='Old checkpoints are chosen in string order, so the newest checkpoint is deleted.',
         files=['harness/ckpt.py'],
         demo=SIM + '''
job = ckpt.Job(root + '/m', 1, 1)
for s in (8, 9, 10, 11):
    job.save(s, keep=2)
have = [x['s'] for x in job.project()]
print(have)
os._exit(0 if have == [10, 11] else 1)
'''),
    dict(id='c02-iter-cleanup-ignores-pin', property='C02',
         edits=[(CK, '''          checkpoint_utils.remove_dataset_checkpoint(
              self._get_checkpoint_dir(step), _TRAIN_DS_PREFIX
          )
''', '''          for ds_file in gfile.glob(
              os.path.join(self._get_checkpoint_dir(step), _TRAIN_DS_PREFIX + '*')
          ):
            gfile.remove(ds_file)
''')],
         needs='a pinned checkpoint older than the limit on iterator checkpoints',
         breaks='The data-iterator state of a pinned checkpoint is deleted.',
         files=['harness/ckpt.py'],
         demo=SIM + '''
job = ckpt.Job(root + '/m', 1, 1)
for s in (1, 2, 3, 4):
    job.save(s, keep=3, keep_dataset_checkpoints=1)
    if s == 1:
        job.pin(1)
have = [(x['s'], x['ds']) for x in job.project()]
print(have)
os._exit(0 if (1, True) in have else 1)
'''),
    dict(id='c03-min-missing-metric', property='C03',
         edits=[(CK, '''    not_found_value = float('-inf' if self._metric_mode == 'max' else 'inf')
''', '''    not_found_value = float('-inf')
''')],
         needs='metric_mode="min", keep_checkpoints_without_metrics=False and a checkpoint '
               'without a recorded metric among those considered',
         breaks='A checkpoint without a metric is ranked best in min mode: a checkpoint with a '
                'good value is removed before it.',
         demo='''
import boot; boot.setup(1)
import os, tempfile
import tensorflow as tf
import ckpt
from t5x import checkpoints
root = tempfile.mkdtemp()
c = checkpoints.SaveBestCheckpointer(ckpt.make_state(0), ckpt.FakePartitioner(0, 1), root, keep=2,
    metric_name_to_monitor='train/loss', metric_mode='min', keep_checkpoints_without_metrics=False)
w = tf.summary.create_file_writer(root + '/train')
for s in (1, 2, 3, 4):
    c.save(ckpt.make_state(s))
    if s != 2:
        with w.as_default():
            tf.summary.scalar('loss', {1: 0.5, 3: 0.7}.get(s, 0.9), step=s)
        w.flush()
have = sorted(int(x.split('_')[1]) for x in os.listdir(root) if x.startswith('checkpoint_'))
print(have)
os._exit(0 if have == [1, 3, 4] else 1)
''', files=['harness/ckpt.py']),
    dict(id='c03-count-before-filter', property='C03',
         edits=[(CK, '''    if self._keep_checkpoints_without_metrics:
      existing_steps = list(
          filter(lambda s: s in metrics_by_step, existing_steps)
      )

    to_remove = len(existing_steps) - self.keep
    if to_remove <= 0:
      return

    # For''', '''    to_remove = len(existing_steps) - self.keep
    if to_remove <= 0:
      return

    if self._keep_checkpoints_without_metrics:
      existing_steps = list(
          filter(lambda s: s in metrics_by_step, existing_steps)
      )

    # For''')],
         needs='keep_checkpoints_without_metrics=True with some checkpoints lacking the metric',
         breaks='More checkpoints with good metrics are deleted than the limit asks for, up to '
                'the newest one.',
         demo='''
import boot; boot.setup(1)
import os, tempfile
import tensorflow as tf
import ckpt
from t5x import checkpoints
root = tempfile.mkdtemp()
c = checkpoints.SaveBestCheckpointer(ckpt.make_state(0), ckpt.FakePartitioner(0, 1), root, keep=1,
    metric_name_to_monitor='train/acc', metric_mode='max', keep_checkpoints_without_metrics=True)
w = tf.summary.create_file_writer(root + '/train')
for s in (1, 2, 3, 4):
    c.save(ckpt.make_state(s))
    if s == 2:
        with w.as_default():
            tf.summary.scalar('acc', 0.9, step=s)
        w.flush()
have = sorted(int(x.split('_')[1]) for x in os.listdir(root) if x.startswith('checkpoint_'))
print(have)
os._exit(0 if 2 in have and 4 in have else 1)
''', files=['harness/ckpt.py']),
]
