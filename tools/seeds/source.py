"""Planted bugs for C05."""
T, U, E = 't5x/train.py', 't5x/utils.py', 't5x/eval.py'
HEAD = """
import boot; boot.setup()
import os, sys, types, tempfile, shutil
h = types.ModuleType('harness'); h.__path__ = [os.path.dirname(os.path.abspath(__file__))]
sys.modules['harness'] = h
"""
EVAL = HEAD + """
import realtrain as J, zoo
from t5x import eval as el, utils
ref = [tuple(b['id'].tolist()) for b, _ in zip(J.dataset(4).as_numpy_iterator(), range(40))]
root, log = tempfile.mkdtemp(), tempfile.mkdtemp()
J.Job(dict(evalp=0, mesh=(1, 1), opt='sgd', mutables=False, batch=4, micro=None, period=1, listed=None,
           keep=None, keep_ds=None, save_dataset=False, stats=1, seed=0, orbax=False), root, ref).run(11)
class Model(type(J.model('sgd', False))):
    FEATURE_CONVERTER_CLS = staticmethod(lambda pack: None)
    predict_batch = predict_batch_with_aux = score_batch = lambda *a, **k: None
seen = []
class Boom(Exception): pass
def go(die=0):
    class Ev:
        model_feature_shapes = {'id': (), 'x': (3,)}
        eval_tasks = ['t']
        def __init__(self, **k): pass
        def evaluate(self, compute_metrics, step, **k):
            seen.append(step)
            if len(seen) == die: raise Boom()
            return types.SimpleNamespace(result=lambda: None), None
    el.utils.log_model_info = lambda *a, **k: None
    try:
        el.evaluate(model=Model(), partitioner=zoo.partitioner(1, 1, on_devices=True), output_dir=log,
            inference_evaluator_cls=Ev, dataset_cfg=types.SimpleNamespace(module=None, batch_size=4,
            mixture_or_task_name='mix', split='v', use_cached=False, seed=None, task_feature_lengths={},
            use_memory_cache=False), restore_checkpoint_cfg=utils.RestoreCheckpointConfig(
            path=root, mode='all', dtype='float32'), summarize_config_fn=lambda **k: None, use_orbax=False)
    except Boom: pass
%s
"""
SEEDS = [
    dict(id='c05-empty-dir-ends-search', property='C05',
         edits=[(U, "              'No checkpoints found in specified directory: %s', ckpt_dir\n          )\n          continue",
                 "              'No checkpoints found in specified directory: %s', ckpt_dir\n          )\n          break")],
         needs='a restore configuration with several directories of which the first holds no checkpoint',
         breaks='The later directories are ignored and the job starts from scratch.',
         demo=HEAD + """
from t5x import utils
a, b = tempfile.mkdtemp(), tempfile.mkdtemp()
os.mkdir(b + '/checkpoint_5')
c, p = utils.get_first_valid_restore_config_and_paths([utils.RestoreCheckpointConfig(path=[a, b])])
assert c is not None and p == [b + '/checkpoint_5'], p"""),
    dict(id='c05-transform-on-resume', property='C05', files=['harness/realtrain.py', 'harness/zoo.py'],
         edits=[(T, "        functools.partial(fn, is_resuming=True)\n", "        functools.partial(\n            fn, is_resuming=checkpoint_cfg.restore.mode == 'latest'\n        )\n")],
         needs='a job that was started from a specific checkpoint with a transformation and is restarted',
         breaks='The transformation is applied again to the own checkpoint of the job.',
         demo=HEAD + """
import realtrain as J
from t5x import utils
ref = [tuple(b['id'].tolist()) for b, _ in zip(J.dataset(4).as_numpy_iterator(), range(40))]
C = dict(evalp=0, mesh=(1, 1), opt='sgd', mutables=False, batch=4, micro=None, period=2, listed=None,
         keep=None, keep_ds=None, save_dataset=False, stats=1, seed=0, orbax=False)
pre = J.Job(dict(C), tempfile.mkdtemp(), ref); pre.run(2)
flags = []
def fn(sd, st, *, is_resuming=False):
    flags.append(is_resuming)
    return sd
rc = lambda: utils.RestoreCheckpointConfig(path=pre.root + '/checkpoint_2', mode='specific', dtype='float32',
                                           state_transformation_fns=(fn,))
own = tempfile.mkdtemp()
J.Job(C, own, ref).run(4, warm=rc())
assert set(flags) == {False}, flags
del flags[:]
J.Job(C, own, ref).run(5, warm=rc())
assert set(flags) == {True}, flags"""),
    dict(id='c05-recorded-before-evaluated', property='C05', files=['harness/realtrain.py', 'harness/zoo.py'],
         edits=[(E, "    all_metrics = evaluator.evaluate(train_state, train_state_axes)\n",
                 "    if jax.process_index() == 0:\n      with gfile.GFile(eval_ckpt_path, 'w') as f:\n        f.write('\\n'.join(_sorted_ckpt_paths(\n            _load_evaluated_ckpt_paths(eval_ckpt_path) | {ckpt_path})))\n    all_metrics = evaluator.evaluate(train_state, train_state_axes)\n")],
         needs='an evaluation that dies while evaluating a checkpoint and is restarted',
         breaks='The checkpoint is skipped after the restart although it was never evaluated.',
         demo=EVAL % """go(die=3); go()
assert seen == [0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], seen"""),
    dict(id='c05-resumed-evaluation-order', property='C05', files=['harness/realtrain.py', 'harness/zoo.py'],
         edits=[(E, "    ckpt_paths = _sorted_ckpt_paths(ckpt_paths - evaluated_ckpt_paths)",
                 "    ckpt_paths = sorted(ckpt_paths - evaluated_ckpt_paths)")],
         needs='a restarted evaluation of all checkpoints with steps of different numbers of digits',
         breaks='The remaining checkpoints are evaluated in alphabetical instead of numerical order.',
         demo=EVAL % """go(die=3); go()
assert seen == [0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], seen"""),
    dict(id='c05-eval-all-from-newest', property='C05', files=['harness/realtrain.py', 'harness/zoo.py'],
         edits=[(U, "          logging.info('Using latest T5X checkpoint.')\n          ckpt_paths = ckpt_paths[-1:]",
                 "          logging.info('Using latest T5X checkpoint.')\n          ckpt_paths = sorted(ckpt_paths)[-1:]")],
         needs='a directory holding checkpoints 9 and 10 or the like',
         breaks='The alphabetically last checkpoint is taken for the latest.',
         demo=HEAD + """
from t5x import utils
b = tempfile.mkdtemp()
for s in (9, 10): os.mkdir(b + '/checkpoint_%d' % s)
c, p = utils.get_first_valid_restore_config_and_paths([utils.RestoreCheckpointConfig(path=b)])
assert p == [b + '/checkpoint_10'], p"""),
]
