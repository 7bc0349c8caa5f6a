"""Planted bugs for C08."""
T, R = 't5x/train.py', 't5x/trainer.py'
DEMO = """
import boot; boot.setup()
import os, sys, types, tempfile
h = types.ModuleType('harness'); h.__path__ = [os.path.dirname(os.path.abspath(__file__))]
sys.modules['harness'] = h
import realtrain as J
ref = [tuple(b['id'].tolist()) for b, _ in zip(J.dataset(4).as_numpy_iterator(), range(40))]
C = dict(evalp=0, mesh=(1, 1), opt='sgd', mutables=False, batch=4, micro=None, period=2, listed=None,
         keep=None, keep_ds=None, save_dataset=True, stats=1, seed=0, orbax=False)
def job(**k):
    return J.Job(dict(C, **k), tempfile.mkdtemp(), ref)
%s
"""
FILES = ['harness/realtrain.py', 'harness/zoo.py']
SEEDS = [
    dict(id='c08-rng-from-start', property='C08', files=FILES,
         edits=[(R, "    return jax.random.fold_in(self._base_rng, step)",
                 "    return jax.random.fold_in(self._base_rng, step - self._first_step)"),
                (R, "    self._train_state = train_state\n\n    self.stop_training = False",
                 "    self._train_state = train_state\n    self._first_step = int(np.asarray(get_local_data(train_state.step)))\n\n    self.stop_training = False")],
         needs='a restart after the first step of a model whose loss uses random numbers',
         breaks='The random numbers of a step depend on where the process was restarted.',
         demo=DEMO % """a = job(); a.run(6)
b = job(); b.run(2); b.run(6)
end = [[e['d'] for e in x.ev if e['e'] == 'end'][-1] for x in (a, b)]
assert end[0] == end[1], end"""),
    dict(id='c08-warm-start-wins', property='C08', files=FILES,
         edits=[(T, "      restore_cfgs.append(checkpoint_cfg.restore)",
                 "      restore_cfgs.insert(0, checkpoint_cfg.restore)")],
         needs='a job that is warm-started from another run and then restarted',
         breaks='The restarted job begins again at the warm-start checkpoint, although it has its own.',
         demo=DEMO % """pre = job(period=1); pre.run(3)
b = job(); b.run(5, warm=pre.root + '/checkpoint_3'); b.run(7, warm=pre.root + '/checkpoint_3')
assert [e['s'] for e in b.ev if e['e'] == 'begin'] == [3, 5], b.ev"""),
    dict(id='c08-warm-start-data', property='C08', files=FILES,
         edits=[(T, "              checkpoint_cfg.save and checkpoint_cfg.save.save_dataset\n          ),\n          state",
                 "              checkpoint_cfg.save\n              and checkpoint_cfg.save.save_dataset\n              and (checkpoint_cfg.restore is None or checkpoint_cfg.restore.restore_dataset)\n          ),\n          state")],
         needs='a warm-started job with data-iterator checkpoints that is restarted from its own checkpoint',
         breaks='The restarted job reads the data from the beginning again.',
         demo=DEMO % """pre = job(period=1); pre.run(3)
b = job(); b.run(5, warm=pre.root + '/checkpoint_3'); b.run(7, warm=pre.root + '/checkpoint_3')
assert [e['i'] for e in b.ev if e['e'] == 'batch'] == [0, 1, 2, 3], b.ev"""),
]
