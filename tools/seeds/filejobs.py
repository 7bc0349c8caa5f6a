"""Planted bugs for C13."""
I = 't5x/infer.py'
F = ['harness/filejob.py']
DEMO = """
import boot; boot.setup()
import os, tempfile
import filejob
root = tempfile.mkdtemp(prefix='demo13')
import atexit, shutil
atexit.register(shutil.rmtree, root)
def job(*a, **k):
  return filejob.Job(tempfile.mkdtemp(dir=root), *a, **k)
def output(j, w):
  \"\"\"The output at the end, None if there is none.\"\"\"
  ops = [e['op'] for e in w.events]
  assert ops[-1] in ('end', 'die', 'crash'), w.events[-1]
  return j.texts(w.last) if j.look(w.last)['done'] else None
def all_crashes(j):
  \"\"\"Every crash of the job, and one restart.\"\"\"
  w = j.run()
  want = output(j, w)
  assert want is not None and len(want) == len(j.rows())
  for k, pic in w.pics:
    got = output(j, j.run(pic))
    assert got == want, 'restarted after %%s: %%s' %% (sorted(p for p in pic), got)
%s
"""
SEEDS = [
    dict(id='c13-completed-first', property='C13', files=F,
         edits=[(I, """      write_fn(chunk_path, inferences, task_ds, mode, vocabulary)
      with gfile.GFile(chunk_path + '.COMPLETED', 'w') as f:
        f.write('')
""", """      with gfile.GFile(chunk_path + '.COMPLETED', 'w') as f:
        f.write('')
      write_fn(chunk_path, inferences, task_ds, mode, vocabulary)
""")],
         needs='no iterator checkpoints, a crash while the results of a chunk are written, a restart',
         breaks='The rest of the chunk is never written.',
         demo=DEMO % "all_crashes(job('predict', 5, 2, 1, ckpt=False))"),
    dict(id='c13-skip-by-chunk-file', property='C13', files=F,
         edits=[(I, "      if gfile.exists(chunk_path + '.COMPLETED') and not checkpoint_ds_iter:\n        assert gfile.exists(chunk_path), (\n            f'Chunk file {chunk_path} should be present if '\n            f'{chunk_path + \".COMPLETED\"} exists.'\n        )\n",
                 "      if gfile.exists(chunk_path) and not checkpoint_ds_iter:\n")],
         needs='no iterator checkpoints, a crash while the results of a chunk are written, a restart',
         breaks='A partly written chunk counts as written.',
         demo=DEMO % "all_crashes(job('score', 5, 2, 1, ckpt=False))"),
    dict(id='c13-rng-per-run', property='C13', files=F,
         edits=[(I, "    for chunk, chunk_batch in infer_ds_iter:\n", "    rng = jax.random.PRNGKey(0)\n    for chunk, chunk_batch in infer_ds_iter:\n"),
                (I, "      chunk_rng = jax.random.fold_in(jax.random.PRNGKey(0), chunk)\n", "      rng, chunk_rng = jax.random.split(rng)\n")],
         needs='a randomised decoder, a crash after the first chunk, a restart with iterator checkpoints',
         breaks='Chunks after a restart get the randomness of the first chunks, so the output is not that of an uninterrupted run.',
         demo=DEMO % "all_crashes(job('predict', 5, 1, 1))"),
    dict(id='c13-write-after-pointer', property='C13', files=F,
         edits=[(I, "      write_fn(chunk_path, inferences, task_ds, mode, vocabulary)\n      with gfile.GFile(chunk_path + '.COMPLETED', 'w') as f:\n        f.write('')\n", ""),
                (I, "          for fname in gfile.glob(previous_ckpt_path + '.*'):\n            gfile.remove(fname)\n",
                 "          for fname in gfile.glob(previous_ckpt_path + '.*'):\n            gfile.remove(fname)\n\n      write_fn(chunk_path, inferences, task_ds, mode, vocabulary)\n      with gfile.GFile(chunk_path + '.COMPLETED', 'w') as f:\n        f.write('')\n")],
         needs='a crash between the update of the iterator checkpoint and the writing of the chunk, a restart',
         breaks='The iterator goes on after a chunk that was never written: its records are missing or the job can not end.',
         demo=DEMO % "all_crashes(job('predict', 5, 2, 1))"),
    dict(id='c13-merge-appends', property='C13', files=F,
         edits=[(I, "  with gfile.GFile(output_path, 'wb') as merged:\n", "  with gfile.GFile(output_path, 'ab') as merged:\n")],
         needs='a crash while the chunks are merged, a restart',
         breaks='Records merged before the crash are in the output twice.',
         demo=DEMO % "all_crashes(job('predict', 5, 2, 1))"),
    dict(id='c13-last-write-unchecked', property='C13', files=F,
         edits=[(I, "        exception = future.exception(timeout=0 if wait else None)\n      except concurrent.futures.TimeoutError:\n        still_incomplete_futures.append(future)\n",
                 "        exception = future.exception(timeout=0)\n      except concurrent.futures.TimeoutError:\n        still_incomplete_futures.append(future)\n        continue\n")],
         needs='the write of the last chunk fails after the wait for writes began',
         breaks='The failure is not noticed, and the job is marked finished without the last records.',
         demo=DEMO % """j = job('predict', 5, 2, 1)
want = output(j, j.run())
w = j.run(bad_write=3)
got = output(j, w)
assert got is None or got == want, got
assert output(j, j.run(w.last)) == want"""),
]
