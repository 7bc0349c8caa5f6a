"""C04: a restored state equals the saved one, for the step asked for.

TLC generates behaviours of spec/CkptValue.tla (saves and restores through the
three APIs, with dtypes, path forms, partitionings, iterator positions); each
is replayed against the real checkpointers over real train states, and every
result is compared with the one the specification gives.
"""
import os
import shutil
import tempfile

from harness import pool, tlc

DEVICES = 8
STEPS = [0, 1, 9, 10, 99, 100, 101, 1000, 20000]
LAYOUTS = [(1, 1, 0, True), (2, 4, 0, True), (4, 2, 1, True), (8, 1, 1, True), (2, 2, 1, False),
           (1, 8, 0, True)]
KINDS = ['adam', 'adafactor', 'adafactor_rules', 'chain', 'multi', 'inference', 'sgd']


def run(chk):
    base = dict(Dtypes={'f32', 'bf16'}, Forms={'dir', 'slash', 'file'})
    chk.spec('CkptValue', tlc.check('CkptValue', tlc.cfg(
        spec='Spec', constants=dict(base, MaxId=2, Layouts={1}, MaxOps=chk.n(4, 5)),
        invariants=['TypeOK', 'RightStep', 'RightDtype', 'Exact'], properties=['Immutable'])))
    num = chk.n(70, 700)
    depth = 18
    beh = tlc.simulate('CkptValue', tlc.cfg(spec='Spec', constants=dict(
        base, MaxId=len(STEPS) - 1, Layouts=set(range(1, len(LAYOUTS) + 1)), MaxOps=depth)),
        num, depth + 1, chk.seed)
    chk.log('%d behaviours' % len(beh))
    items = [(i, [s['out'] for s in b[1:]]) for i, b in enumerate(beh)]
    n = 0
    for r in pool.pmap(chk, 'harness.checks.c04', 'replay', items, procs=8, devices=DEVICES):
        if r is None:
            continue
        bad, ops, sample = r
        n += ops
        for k, w, d in bad:
            chk.violation(k, w, d)
        chk.validated(1, sample)
    chk.note(operations_replayed=n, train_states=KINDS, partitionings=LAYOUTS, steps=STEPS)
    chk.assumptions += ['one host process; eight virtual CPU devices',
                        'the model-free loader is asked for classic checkpoints only']


def replay(item):
    """Replays one behaviour; returns (mismatches, operations, sample)."""
    import jax.numpy as jnp
    import numpy as np
    from harness import zoo
    from t5x import checkpoints
    i, ops = item
    kind = KINDS[i % len(KINDS)]
    mut = (i // len(KINDS)) % 2 == 1
    clu_it = i % 3 != 0
    root = tempfile.mkdtemp()
    dts = {'none': None, 'f32': jnp.float32, 'bf16': jnp.bfloat16}
    bad, done = [], 0
    empty = zoo.fill(zoo.state(kind, mutables=mut), 0)
    cur = {'id': 0, 'dt': 'f32', 'rnd': False}
    state = zoo.fill(empty, STEPS[0])

    def make_it():
        import tensorflow as tf
        ds = tf.data.Dataset.range(1000).map(lambda x: {'x': x})
        if clu_it:
            from clu.data import dataset_iterator as di
            return di.TfDatasetIterator(ds, checkpoint=True)
        return iter(ds)

    def make_part(lay, host=False):
        d, m, r, dev = LAYOUTS[lay - 1]
        # lazy parameters are only available off the devices
        return zoo.partitioner(d, m, zoo.RULES2 if r else zoo.RULES, on_devices=dev and not host)

    it = make_it()
    pos = 0
    saved = {}

    def expect(v):
        """The leaves a state of abstract value v holds."""
        full = zoo.leaves(zoo.fill(empty, STEPS[v['id']]))
        out = {}
        for k, x in full.items():
            if k.startswith('target/'):
                if v['rnd']:
                    x = np.asarray(jnp.asarray(x).astype(jnp.bfloat16))
                x = np.asarray(jnp.asarray(x).astype(dts[v['dt']]))
            out[k] = x
        return out

    def compare(got, v, what, op):
        want = expect(v)
        if set(got) != set(want):
            bad.append(('leaves:' + what, '%s: leaves differ: missing %s, extra %s' % (
                what, sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4]), op))
            return
        for k in sorted(want):
            if got[k].dtype != want[k].dtype:
                bad.append(('dtype:' + what, '%s: %s has dtype %s, expected %s' % (
                    what, k, got[k].dtype, want[k].dtype), op))
                return
            if got[k].shape != want[k].shape or not np.array_equal(got[k], want[k]):
                bad.append(('value:' + what, '%s: %s differs from what was saved' % (what, k), op))
                return

    hist = []
    for op in ops:
        hist.append(op)
        done += 1
        if op['op'] == 'advance':
            for _ in range(op['k']):
                x = int(np.asarray(next(it)['x']))
                if x != pos:
                    bad.append(('iterator', 'batch %d read where %d was due (%s)' % (
                        x, pos, 'clu' if clu_it else 'tf'), hist))
                    break
                pos += 1
            cur = {'id': cur['id'] + op['k'], 'dt': 'f32', 'rnd': False}
            state = zoo.fill(empty, STEPS[cur['id']])
        elif op['op'] == 'save':
            p = make_part(op['lay'])
            st = zoo.place(p, state) if LAYOUTS[op['lay'] - 1][3] else zoo.host(state)
            ds = it if op['ds'] else None
            if op['fmt'] == 'classic':
                checkpoints.Checkpointer(empty, p, root, ds, save_dtype=dts[op['sdt']]).save(st)
            else:
                m = checkpoints.OrbaxCheckpointManagerInterface(
                    root, empty, p, ds, save_dtype=dts[op['sdt']])
                m.save(st)
                m.wait_until_finished()
                m.close()
            saved[cur['id']] = (pos, op['fmt'])
        else:
            what = '%s/%s/%s%s' % (op['api'], op['req'], op['rdt'], '/lazy' if op['lazy'] else '')
            p = make_part(op['lay'], host=op['lazy'] and op['api'] == 'classic')
            got, newit, err = None, it, None
            kw = {}
            step = STEPS[op['step']]
            path = '%s/checkpoint_%d' % (root, step)
            if op['form'] == 'slash':
                path += '/'
            elif op['form'] == 'file':
                path += '/checkpoint'
            if op['req'] == 'step':
                kw['step'] = step
            if op['req'] == 'path':
                kw['path'] = path
            if op['ds']:
                newit = make_it()
                if op['api'] == 'orbax':
                    # the position to keep if the checkpoint has none to give
                    for _ in range(pos):
                        next(newit)
            # a path may lead away from the directory of the job, which may hold
            # other checkpoints of the same steps
            own = root
            if op['req'] == 'path' and op['form'] != 'dir' and op['api'] != 'load':
                own = root + '_own'
                if not os.path.exists('%s/checkpoint_%d' % (own, step)):
                    os.makedirs(own, exist_ok=True)
                    decoy = zoo.fill(empty, step + 7)
                    sd = zoo.leaves(decoy)
                    sd['state/step'] = np.asarray(step, np.int32)
                    decoy = zoo.restore_leaves(empty, sd)
                    dit = make_it()
                    for _ in range(pos + 3):
                        next(dit)
                    if op['api'] == 'classic':
                        checkpoints.Checkpointer(empty, p, own, dit).save(decoy)
                    else:
                        m = checkpoints.OrbaxCheckpointManagerInterface(own, empty, p, dit)
                        m.save(decoy)
                        m.wait_until_finished()
                        m.close()
            try:
                if op['api'] == 'classic':
                    c = checkpoints.Checkpointer(empty, p, own, newit if op['ds'] else None,
                                                 restore_dtype=dts[op['rdt']])
                    got = c.restore(lazy_parameters=op['lazy'], **kw)
                elif op['api'] == 'orbax':
                    m = checkpoints.OrbaxCheckpointManagerInterface(
                        own, empty, p, newit if op['ds'] else None, restore_dtype=dts[op['rdt']])
                    try:
                        got = m.restore(**kw)
                    finally:
                        m.close()
                else:
                    kw2 = {'step': kw['step']} if 'step' in kw else {}
                    got = checkpoints.load_t5x_checkpoint(
                        kw.get('path', root), restore_dtype=dts[op['rdt']],
                        lazy_parameters=op['lazy'], remap=(i % 2 == 0), **kw2)
            except Exception as e:  # pylint: disable=broad-except
                err = e
            res = op['res']
            if res['ok'] and err is not None:
                bad.append(('fails:' + what, '%s of a checkpoint that is there fails: %s: %s' % (
                    what, type(err).__name__, str(err)[:200]), hist))
                break
            if not res['ok']:
                if err is None:
                    bad.append(('invented:' + what, '%s of a checkpoint that is not there '
                                'returned something' % what, hist))
                    break
                continue
            compare(zoo.leaves(got), res['v'], what, hist)
            if op['api'] != 'load':
                cur = dict(res['v'])
                st = got.state_dict()
                state = zoo.restore_leaves(empty, zoo.leaves(st))
                if op['ds']:
                    it = newit
                    if not (op['api'] == 'orbax' and saved[cur['id']][1] == 'classic'):
                        pos = saved[cur['id']][0]
        if bad:
            break
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(root + '_own', ignore_errors=True)
    return bad, done, hist if i < 2 else None
