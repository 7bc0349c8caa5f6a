"""C05: a job restores from the documented source in preference order.

Generated directories and restore configurations are given to the resolution
function (judged by spec/RestoreResolve.tla); real training jobs with foreign
checkpoints, and real evaluation jobs, are started and killed repeatedly, and
TLC validates what each start restored against spec/RestoreSource.tla.
"""
import os
import random
import shutil
import tempfile
import types

from harness import pool, tlc
from harness.tlc import cfg

DEVICES = 1
STEPS = [0, 1, 2, 3, 9, 10, 11, 100, 1000]


def resolve(item):
    from t5x import utils
    import tensorflow as tf
    seed, num = item
    r = random.Random(seed)
    out = []
    for k in range(num):
        root = tempfile.mkdtemp()
        fs = []
        for i in range(r.randint(1, 4)):
            p = os.path.join(root, 'd%d' % i)
            kind = r.choice(['t5x', 't5x', 't5x', 'empty', 'none', 'tf', 'both', 'file'])
            d = dict(path=p, isdir=kind not in ('none', 'file'), tf=[], steps=[])
            if kind == 'file':
                open(p, 'w').close()
            if d['isdir']:
                os.mkdir(p)
            if kind in ('t5x', 'both'):
                d['steps'] = r.sample(STEPS, r.randint(1, 4))
                for s in d['steps']:
                    os.mkdir(p + '/checkpoint_%d' % s)
                    if r.random() < 0.5:
                        open(p + '/checkpoint_%d/checkpoint' % s, 'w').close()
                for junk in r.sample(['checkpoint_7.tmp-123', 'checkpoint_8.orbax-checkpoint-tmp-0',
                                      'my_checkpoint_9', 'checkpoint_', 'train_eval', 'old.checkpoint_5'], 2):
                    os.mkdir(p + '/' + junk)
            if kind in ('tf', 'both'):
                d['tf'] = [p + '/model.ckpt-%d' % s for s in sorted(r.sample(STEPS, r.randint(1, 3)))]
                tf.compat.v1.train.update_checkpoint_state(p, d['tf'][-1], d['tf'])
            fs.append(d)
        cfgs, given = [], []
        for i in range(r.randint(1, 3)):
            mode = r.choice(['latest', 'latest', 'all', 'specific'])
            ps = [x['path'] for x in r.sample(fs, r.randint(0 if r.random() < 0.2 else 1, len(fs)))]
            if mode == 'specific':
                ps = [p + '/checkpoint_%d' % r.choice(STEPS) for p in ps]
            if len(ps) == 1 and r.random() < 0.6:
                path = ps[0]
            else:
                path = ps
            cfgs.append(dict(mode=mode, paths=ps))
            given.append(utils.RestoreCheckpointConfig(path=path, mode=mode))
        c = dict(fs=fs, cfgs=cfgs, err=False, cfg=0, paths=[], id='seed %d case %d' % (seed, k))
        try:
            got, paths = utils.get_first_valid_restore_config_and_paths(given)
            c['cfg'] = 1 + [g is got for g in given].index(True) if got is not None else 0
            for q in paths:
                par, last = os.path.split(q)
                if c['cfg'] and cfgs[c['cfg'] - 1]['mode'] != 'specific' and last.startswith('checkpoint_'):
                    c['paths'].append([par, int(last[11:])])
                else:
                    c['paths'].append([q, -1])
        except ValueError:
            c['err'] = True
        out.append(c)
        shutil.rmtree(root)
    return out


def swapped(state_dict, state, *, is_resuming=False):
    """A transformation that exchanges two parameters unless resuming."""
    if is_resuming:
        return state_dict
    from flax import traverse_util as tu
    flat = tu.flatten_dict(state_dict, keep_empty_nodes=True)
    ks = [k for k in flat if k[0] == 'target' and k[1] in ('noise', 'mark')]
    pairs = [(k, next(q for q in ks if q[1] != k[1] and q[2:] == k[2:])) for k in ks]
    return tu.unflatten_dict({**flat, **{k: flat[q] for k, q in pairs}})


BASE = dict(evalp=0, mesh=(1, 1), opt='frozen', mutables=False, batch=4, micro=None, listed=None, keep=None,
            keep_ds=None, save_dataset=False, stats=0, seed=0)


def foreign(R, ref, kind, name, steps):
    """Directory with checkpoints of another run (classic or Orbax)."""
    pre = tempfile.mkdtemp()
    for s in steps:
        tmp = tempfile.mkdtemp()
        R.Job(dict(BASE, period=s, orbax=kind, noise=name, value=s), tmp, ref).run(s)
        shutil.move('%s/checkpoint_%d' % (tmp, s), pre)
        shutil.rmtree(tmp)
    return pre


def starts(item):
    from harness import realtrain as R
    from t5x import utils
    seed, num = item
    r = random.Random(seed)
    ref = [tuple(b['id'].tolist()) for b, _ in zip(R.dataset(4).as_numpy_iterator(), range(8))]
    kind = bool(seed % 2)
    renamed = seed % 4 < 2
    store = foreign(R, ref, kind, 'noise_old' if renamed else 'noise', [2, 9, 10, 11])
    out = []
    for k in range(num):
        pre, root = tempfile.mkdtemp(), tempfile.mkdtemp()
        ev = []
        orbax, ds = kind or r.random() < 0.5, r.random() < 0.5
        for life in range(r.randint(2, 4)):
            have = r.sample([2, 9, 10, 11], r.choice([0, 1, 2, 3]))
            for s in [2, 9, 10, 11]:
                d = '%s/checkpoint_%d' % (pre, s)
                if s in have and not os.path.isdir(d):
                    shutil.copytree('%s/checkpoint_%d' % (store, s), d)
                elif s not in have and os.path.isdir(d):
                    shutil.rmtree(d)
            ev.append(dict(e='pre', have=have))
            mode = r.choice(['latest', 'latest', 'specific', 'none', 'empty'])
            spec = r.choice([2, 9, 10, 11]) if r.random() < 0.15 or not have else r.choice(have)
            amap = [(r'(.*)noise(.*)', r'\1noise_old\2')] if renamed else None
            rc = None
            if mode == 'empty':
                rc = utils.RestoreCheckpointConfig(path=[], mode='specific')
            elif mode != 'none':
                rc = utils.RestoreCheckpointConfig(
                    path=pre if mode == 'latest' else '%s/checkpoint_%d' % (pre, spec), mode=mode,
                    assignment_map=amap, state_transformation_fns=(swapped,), dtype='float32')
            mode = 'none' if mode == 'empty' else mode
            job = R.Job(dict(BASE, period=r.choice([1, 2, 3]), keep=r.choice([None, 1, 2]), orbax=orbax,
                             save_dataset=ds), root, ref)
            own = ev[-2]['have'] if len(ev) > 1 and ev[-2]['e'] == 'off' else []
            refused = not own and mode == 'specific' and spec not in have
            try:
                first = max(own) if own else {'latest': max(have + [0]), 'specific': spec, 'none': 0}[mode]
                # Orbax or classic may change between lives.
                fail = r.choice([-1, 1, 2, 3])
                job.run(first + r.randint(1, 4), fail_at=fail, warm=rc)
            except Exception as e:
                if refused and not hasattr(job, 'first'):
                    ev.append(dict(e='refused', mode=mode, spec=spec))
                    continue
                raise
            x, y = (int(round(float(job.first[q][0]))) for q in ('noise', 'mark'))
            ev.append(dict(e='begin', mode=mode, spec=spec, s=job.ev[0]['s'], root=max(x, y), n=1 if y else 0))
            ev.append(dict(e='off', have=job.ev[-1]['have']))
        out.append(dict(ev=ev, id='seed %d job %d' % (seed, k)))
        shutil.rmtree(root)
        shutil.rmtree(pre)
    return out


def inits(item):
    """The train state initializer over real directories of two runs."""
    import clu.data
    import jax
    import jax.numpy as jnp
    import numpy as np
    from harness import realtrain as R, zoo
    from t5x import utils
    seed, num = item
    r = random.Random(seed)
    ref = [tuple(b['id'].tolist()) for b, _ in zip(R.dataset(4).as_numpy_iterator(), range(8))]
    stores = []
    for v in (1, 2):
        stores.append(tempfile.mkdtemp())
        R.Job(dict(BASE, period=1, save_dataset=True, value=v, orbax=False), stores[-1], ref).run(4)
    part = zoo.partitioner(1, 1, on_devices=True)
    m = R.model('frozen', False, value=7)
    init = utils.TrainStateInitializer(
        optimizer_def=m.optimizer_def, init_fn=m.get_initial_variables, input_shapes={'x': (4, 3)},
        input_types={'x': jnp.float32}, partitioner=part)
    out = []
    for k in range(num):
        root = tempfile.mkdtemp()
        fs = []
        for i in range(r.randint(1, 3)):
            p = os.path.join(root, 'd%d' % i)
            os.mkdir(p)
            v = r.choice([0, 1])
            have = r.sample([1, 2, 3, 4], r.choice([0, 1, 1, 2, 3]))
            for s in have:
                os.symlink('%s/checkpoint_%d' % (stores[v], s), '%s/checkpoint_%d' % (p, s))
            fs.append(dict(path=p, isdir=True, tf=[], steps=have, run=v + 1))
        cfgs, given = [], []
        for i in range(r.randint(0 if r.random() < .1 else 1, 3)):
            mode = r.choice(['latest', 'latest', 'all', 'specific'])
            ps = []
            for x in r.sample(fs, r.randint(1, len(fs))):
                if mode != 'specific':
                    ps.append(x['path'])
                elif x['steps'] and r.random() < .9:
                    ps.append('%s/checkpoint_%d' % (x['path'], r.choice(x['steps'])))
                else:
                    ps.append('%s/checkpoint_9' % x['path'])
            ds = r.random() < .5
            cfgs.append(dict(mode=mode, paths=ps, ds=ds))
            given.append(utils.RestoreCheckpointConfig(path=ps, mode=mode, restore_dataset=ds, dtype='float32'))
        op = r.choice(['all', 'one', 'orscratch'])
        it = clu.data.dataset_iterator.TfDatasetIterator(R.dataset(4), checkpoint=True)
        c = dict(fs=fs, cfgs=cfgs, op=op, err=False, got=[], pos=0, id='seed %d initializer %d' % (seed, k))

        def row(st, path=''):
            p, s = os.path.split(path)
            c['got'].append(dict(path=p, at=int(s[11:]) if s else -1, step=int(st.step),
                                 run=int(round(float(st.params['noise'][0])))))
        try:
            with part.mesh:
                if op == 'all':
                    for st, path in init.from_checkpoints(given, ds_iter=it, init_rng=jax.random.PRNGKey(0)):
                        row(st, path)
                else:
                    if op == 'one':
                        st = init.from_checkpoint(given, ds_iter=it, init_rng=jax.random.PRNGKey(0))
                    else:
                        st = init.from_checkpoint_or_scratch(given, ds_iter=it, init_rng=jax.random.PRNGKey(0))
                    if st is not None:
                        row(st)
            c['pos'] = {b: i for i, b in reversed(list(enumerate(ref)))}.get(tuple(np.asarray(next(it)['id']).tolist()), -1)
        except (ValueError, FileNotFoundError):
            c['err'], c['got'] = True, []
        out.append(c)
        shutil.rmtree(root)
    for s in stores:
        shutil.rmtree(s)
    return out


def ls(d):
    return {os.path.join(p[len(d):], x) for p, ds, fs in os.walk(d) for x in ds + fs}


def evals(item):
    """Real evaluate() with a recording evaluator."""
    from harness import realtrain as R, zoo
    from t5x import eval as el, utils
    seed, num = item
    r = random.Random(seed)
    steps = [0, 2, 9, 10, 11]
    ref = [tuple(b['id'].tolist()) for b, _ in zip(R.dataset(4).as_numpy_iterator(), range(8))]
    store = foreign(R, ref, bool(seed % 2), 'noise', steps[1:])
    tmp = tempfile.mkdtemp()
    R.Job(dict(BASE, period=1, orbax=bool(seed % 2)), tmp, ref).run(1)
    shutil.move(tmp + '/checkpoint_0', store)
    m = R.model('sgd', False)

    class Model(type(m)):
        FEATURE_CONVERTER_CLS = staticmethod(lambda pack: None)

        def __getattr__(self, n):
            if n in ('predict_batch', 'predict_batch_with_aux', 'score_batch'):
                return lambda *a, **k: None
            raise AttributeError(n)
    part = zoo.partitioner(1, 1, on_devices=True)
    out = []
    for k in range(num):
        base = tempfile.mkdtemp()
        d = base + r.choice(['/ckpts', '/my runs', '/checkpoint_3'])
        os.mkdir(d)
        log = tempfile.mkdtemp()
        ev, have = [], []
        for life in range(r.randint(2, 5)):
            for s in steps:
                q = '%s/checkpoint_%d' % (d, s)
                if not os.path.isdir(q) and r.random() < 0.4:
                    shutil.copytree('%s/checkpoint_%d' % (store, s), q)
                elif os.path.isdir(q) and r.random() < 0.15:
                    shutil.rmtree(q)
            have = [s for s in steps if os.path.isdir('%s/checkpoint_%d' % (d, s))]
            ev.append(dict(e='edir', have=have))
            mode = r.choice(['all', 'all', 'all', 'latest', 'specific'])
            if mode == 'specific' and not have:
                mode = 'latest'
            want = r.sample(have, r.randint(1, len(have))) if mode == 'specific' else []
            if len(want) == 1:
                path = '%s/checkpoint_%d' % (d, want[0])
            elif want:
                path = ['%s/checkpoint_%d' % (d, s) for s in want]
            else:
                path = d
            for junk in r.sample(['checkpoint_12.orbax-checkpoint-tmp-3', 'checkpoint_13.tmp-77'], r.randint(0, 2)):
                os.makedirs(d + '/' + junk + '/x', exist_ok=True)
            ev.append(dict(e='estart', mode=mode, want=want))
            left = [r.choice([99, 99, 1, 2, 3])]
            before = r.random() < 0.4

            class Ev:
                model_feature_shapes = {'id': (), 'x': (3,)}
                eval_tasks = ['t']

                def __init__(self, **kw):
                    pass

                def evaluate(self, compute_metrics, step, predict_fn, **kw):
                    left[0] -= 1
                    st = predict_fn.keywords['train_state']
                    v = int(round(float(st.params['noise'][0])))
                    if not left[0] and before:
                        ev.append(dict(e='edie'))
                        raise R.Boom()
                    ev.append(dict(e='visit', s=int(step), v=v, die=not left[0]))
                    if not left[0]:
                        raise R.Boom()
                    return types.SimpleNamespace(result=lambda: None), None
            old = el.utils.log_model_info
            el.utils.log_model_info = lambda *a, **k: None
            before_ls = ls(d)
            try:
                el.evaluate(
                    model=Model(), partitioner=part, output_dir=log, inference_evaluator_cls=Ev,
                    dataset_cfg=types.SimpleNamespace(
                        module=None, batch_size=4, mixture_or_task_name='mix', split='v', use_cached=False,
                        seed=None, task_feature_lengths={}, use_memory_cache=False),
                    restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=path, mode=mode, dtype='float32'),
                    summarize_config_fn=lambda **k: None, use_orbax=seed % 2 or r.random() < 0.5)
                ev.append(dict(e='eend'))
            except R.Boom:
                pass
            finally:
                el.utils.log_model_info = old
            if ls(d) != before_ls:
                ev.append(dict(e='changed', gone=sorted(before_ls - ls(d))[:3], new=sorted(ls(d) - before_ls)[:3]))
        out.append(dict(ev=ev, id='seed %d evaluation %d' % (seed, k)))
        shutil.rmtree(base)
        shutil.rmtree(log)
    return out


def work(item):
    return item[0], globals()[item[0]](item[1:])


def run(chk):
    consts = dict(MaxStep=chk.n(3, 4), PreSteps=tlc.Raw(chk.n('{1, 2}', '{1, 2, 3}')))
    st = tlc.check('RestoreSource', cfg(spec='JSpec', constants=consts, invariants=['Once', 'OneRoot'],
                                        properties=['Sticky']))
    chk.spec('RestoreSource training', st)
    st = tlc.check('RestoreSource', cfg(spec='ESpec', constants=dict(consts, MaxStep=chk.n(2, 3)),
                                        invariants=['Upwards', 'Complete'], properties=['NeverAgain']))
    chk.spec('RestoreSource evaluation', st)
    b = chk.seed * 1000
    items = [('starts', b + k, chk.n(4, 50)) for k in range(4)]
    items += [('evals', b + k, chk.n(14, 60)) for k in range(4)]
    items += [('resolve', b + k, chk.n(150, 2000)) for k in range(2)]
    items += [('inits', b + k, chk.n(30, 300)) for k in range(2)]
    got = {'starts': [], 'evals': [], 'resolve': [], 'inits': []}
    for rs in pool.pmap(chk, 'harness.checks.c05', 'work', items, procs=8):
        if rs:
            got[rs[0]] += rs[1]
    bad, n = tlc.judge('RestoreResolve', [{k: v for k, v in c.items() if k != 'id'} for c in got['resolve']])
    for i in bad:
        chk.violation(got['resolve'][i]['id'], 'resolution of restore configurations: %s' % got['resolve'][i],
                      got['resolve'][i])
    chk.validated(n, got['resolve'][0] if got['resolve'] else None)
    cs = [dict({k: v for k, v in c.items() if k != 'id'}, fs=[dict(d, isdir=True) for d in c['fs']]) for c in got['inits']]
    bad, n2 = tlc.judge('RestoreResolve', cs, op='OkInit')
    for i in bad:
        chk.violation(got['inits'][i]['id'], 'initial state of a job: %s' % got['inits'][i], got['inits'][i])
    chk.validated(n2, got['inits'][0] if got['inits'] else None)
    chk.note(initializations=n2)
    hist = got['starts'] + got['evals']
    reached, st = tlc.validate('RestoreSourceTrace', cfg(
        spec='TSpec', constants=dict(MaxStep=100, PreSteps=tlc.Raw('{2, 9, 10, 11}')),
        constraints=['Track'], postcondition='Report'), hist)
    chk.spec('RestoreSourceTrace', st)
    for h, k in zip(hist, reached):
        if k < len(h['ev']):
            chk.violation(h['id'], 'after %s came %s' % (h['ev'][max(0, k - 6):k], h['ev'][k]), h)
    chk.validated(len(hist), hist[0] if hist else None)
    chk.note(resolutions=n, train_starts=sum(e['e'] == 'begin' for h in hist for e in h['ev']),
             evaluations=sum(e['e'] == 'visit' for h in hist for e in h['ev']))
