"""Planted bugs for C07."""
T = 't5x/train.py'
DEMO = """
import boot; boot.setup()
import trainloop as T, zoo
from t5x import trainer
part = zoo.partitioner(1, 1)
c = dict(init=0, total=12, rel=0, period=4, listed=[], order=[], evalp=0, stats=0, gcp=0, te=False, ie=False,
         before=False, conc=False, orbax=True, acts=[], nolist=None, nosave=False)
disk = set()
%s
"""
SEEDS = [
    dict(id='c07-absolute-period', property='C07',
         edits=[(T, "        and (final_epoch or step_offset % checkpoint_period == 0)",
                 "        and (final_epoch or host_step % checkpoint_period == 0)")],
         needs='a run that starts at a step that is no multiple of the checkpoint period',
         breaks='No periodic checkpoint is written until the last step.',
         files=['harness/trainloop.py', 'harness/zoo.py'],
         demo=DEMO % """c['init'] = 3
T.run(c, disk, [], -1, T.Boom, part)
assert disk == {3, 7, 11, 12}, disk"""),
    dict(id='c07-epoch-from-zero', property='C07',
         edits=[(T, "      epoch_end_step = first_step + steps_per_epoch * (epoch - first_epoch + 1)",
                 "      epoch_end_step = steps_per_epoch * (epoch + 1)")],
         needs='a run that starts at a step that is no multiple of the epoch length',
         breaks='Epochs end at other steps than the periods count from, so checkpoints are missed and training may end early.',
         files=['harness/trainloop.py', 'harness/zoo.py'],
         demo=DEMO % """c['init'] = 3
T.run(c, disk, [], -1, T.Boom, part)
assert disk == {3, 7, 11, 12}, disk"""),
    dict(id='c07-last-action-decides', property='C07',
         edits=[(T, "      stop_training |= action.run(train_state, metrics_by_task=metrics_by_task)",
                 "      stop_training = action.run(train_state, metrics_by_task=metrics_by_task)")],
         needs='two actions of one mode of which an earlier one asks to stop',
         breaks='The stop request is lost and training runs on.',
         files=['harness/trainloop.py', 'harness/zoo.py'],
         demo=DEMO % """c.update(acts=['TRAIN'], nacts=2)
T.run(c, disk, [True], -1, T.Boom, part)
assert T.EV[-1]['e'] == 'end' and T.EV[-1]['s'] == 4, T.EV[-3:]"""),
    dict(id='c07-stats-skip-listed', property='C07',
         edits=[(T, "        inner_num_steps = min(epoch_end_step - host_step, stats_period)",
                 "        inner_num_steps = stats_period - host_step % stats_period\n        inner_num_steps = min(total_steps - host_step, inner_num_steps)")],
         needs='a statistics period that does not divide the epoch length',
         breaks='A chunk runs past the end of its epoch, so the checkpoint of the epoch is written late (or not at all).',
         files=['harness/trainloop.py', 'harness/zoo.py'],
         demo=DEMO % """c['stats'] = 3
T.run(c, disk, [], -1, T.Boom, part)
assert disk == {0, 4, 8, 12}, disk"""),
    dict(id='c07-preemption-swallowed', property='C07',
         edits=[(T, "      raise e\n", "      trainer.stop_training = True\n")],
         needs='preemption in the middle of an epoch',
         breaks='A preempted job reports a normal end, at a step that is not the one of its state.',
         files=['harness/trainloop.py', 'harness/zoo.py'],
         demo=DEMO % """T.run(c, disk, [], 7, trainer.PreemptionError, part)
assert T.EV[-1]['e'] == 'preempted', T.EV[-3:]
assert disk == {0, 4, 6}, disk"""),
]
