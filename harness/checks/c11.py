"""C11: early stopping and NaN actions trigger exactly when documented.

Histories of metrics (all short ones and random longer ones, several actions
and tasks, missing and mistyped metrics) are given to the real actions through
train.run_actions; TLC validates every call against spec/EarlyStop.tla.
"""
import itertools
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 1


def actions(acts):
    from t5x import trainer as trl
    out = {}
    for a in acts:
        if a['kind'] == 'nan':
            x = trl.TerminateOnNanAction(a['task'], a['metric'])
        else:
            x = trl.EarlyStoppingAction((a['task'], a['metric']), a['dir'], patience=a['patience'],
                                        atol=a['atol'] / 8, rtol=a['rtol'] / 4)
        out.setdefault(trl.ActionMode[a['on']], []).append(x)
    return out


def value(m, r):
    import clu.values
    import jax.numpy as jnp
    import numpy as np
    v = {'nan': float('nan'), 'inf': float('inf'), '-inf': -float('inf')}.get(m['special'], m['val'] / 8)
    if m['type'] == 'scalar':
        return clu.values.Scalar(r.choice([float, np.float32, jnp.float32])(v))
    return {'float': v, 'int': m['val'], 'text': clu.values.Text(str(v))}[m['type']]


def play(acts, calls, r):
    from t5x import train, trainer as trl
    real = actions(acts)
    ev = []
    for mode, ms in calls:
        tasks = {}
        for m in ms:
            tasks.setdefault(m['task'], {})[m['metric']] = value(m, r)
        stop = train.run_actions(trl.ActionMode[mode], real, None, tasks)
        ev.append(dict(mode=mode, stop=bool(stop), metrics=[
            dict(task=m['task'], metric=m['metric'], type=m['type'], val=m['val'],
                 nonfinite=m['special'] != '') for m in ms]))
        if stop:
            break
    return ev


def runs(item):
    kind, seed, num = item
    r = random.Random(seed)
    out = []
    if kind == 'all':
        configs = [(p, d, a, q) for p in (2, 3) for d in ('min', 'max') for a, q in ((0, 0), (1, 0), (0, 1))]
        for j, ((p, d, a, q), seq) in enumerate(itertools.product(configs, itertools.product((6, 7, 8, 10), repeat=4))):
            if j % 8 != seed:
                continue
            acts = [dict(on='TRAIN', kind='patience', task='t', metric='m', dir=d, patience=p, atol=a, rtol=q)]
            ev = play(acts, [('TRAIN', [dict(task='t', metric='m', type='scalar', val=v, special='')])
                             for v in seq], r)
            out.append(dict(acts=acts, ev=ev, id='patience %d %s atol %s/8 rtol %s/4: %s' % (p, d, a, q, seq)))
        return out
    modes = ['TRAIN', 'TRAIN_EVAL', 'INFER_EVAL']
    for k in range(num):
        acts = []
        for _ in range(r.choice([1, 1, 2, 3])):
            acts.append(dict(on=r.choice(modes[:2] if r.random() < 0.7 else modes), task=r.choice(['a', 'b']),
                             metric=r.choice(['loss', 'acc']), **r.choice([
                                 dict(kind='nan'), dict(kind='patience', dir=r.choice(['min', 'max']),
                                                        patience=r.randint(2, 5), atol=r.choice([0, 0, 1, 3]),
                                                        rtol=r.choice([0, 0, 1, 2]))])))
        base = {(t, m): r.randint(-40, 40) for t in 'ab' for m in ('loss', 'acc')}
        trend = {q: r.choice([-3, -2, 2, 3]) for q in base}
        calls = []
        for _ in range(14):
            mode = r.choice([a['on'] for a in acts] + [r.choice(modes)])
            ms = []
            for (t, m) in base:
                if r.random() < 0.15:
                    continue
                if r.random() < 0.75:
                    base[t, m] += trend[t, m] + r.choice([0, 0, 1, -1])
                else:
                    base[t, m] += r.choice([0, -1, 1, -2, 2])
                special = ''
                if r.random() < 0.04 and not any(
                        a['kind'] == 'patience' and (a['task'], a['metric']) == (t, m) for a in acts):
                    special = r.choice(['nan', 'inf', '-inf'])
                ty = r.choice(['scalar'] * 8 + ['float'] * 3 + ['int', 'text'])
                if special and ty == 'int':
                    ty = 'scalar'
                ms.append(dict(task=t, metric=m, type=ty, val=base[t, m], special=special))
            if not ms:
                continue
            r.shuffle(ms)
            calls.append((mode, ms))
        out.append(dict(acts=acts, ev=play(acts, calls, r), id='seed %d history %d' % (seed, k)))
    return out


def run(chk):
    for n, (mode, atol, rtol, pat) in enumerate(itertools.product(
            ('min', 'max'), (0, 1), (0, 1), chk.n((3,), (2, 3, 4)))):
        st = tlc.check('EarlyStop', cfg(
            spec='Spec', constants=dict(Vals=Raw('{-4, 1, 3, 4, 6}'), Mode=mode, Atol=atol, Rtol=rtol,
                                        Patience=pat, MaxLen=chk.n(4, 6)),
            invariants=['Exactly', 'First', 'Last', 'Progress']))
        if n == 0 or chk.n(0, 1):
            chk.spec('EarlyStop', st)
    items = [('all', k, 0) for k in range(8)] + [('random', chk.seed * 1000 + k, chk.n(60, 900)) for k in range(8)]
    hist = []
    for h in pool.pmap(chk, 'harness.checks.c11', 'runs', items, procs=8, devices=1):
        hist += h or []
    reached, st = tlc.validate('EarlyStopTrace', cfg(
        spec='TSpec', constants=dict(Vals=Raw('{}'), Mode='min', Atol=0, Rtol=0, Patience=2, MaxLen=0),
        constraints=['Track'], postcondition='Report'), hist)
    chk.spec('EarlyStopTrace', st)
    for h, n in zip(hist, reached):
        if n < len(h['ev']):
            chk.violation(h['id'], 'actions %s: call %d: %s; values so far: %s' % (
                h['acts'], n + 1, h['ev'][n], [e['metrics'] for e in h['ev'][:n]]), h)
    chk.validated(len(hist), hist[-1] if hist else None)
    chk.note(histories=len(hist), stopped=sum(h['ev'][-1]['stop'] for h in hist if h['ev']),
             invalid_options=invalid(chk))


def invalid(chk):
    """Options that cannot be meant are refused."""
    from t5x import trainer as trl
    n = 0
    for kw in (dict(mode='mean'), dict(mode='min', atol=-1.0), dict(mode='min', rtol=-0.5)):
        try:
            trl.EarlyStoppingAction(('t', 'm'), **kw)
        except ValueError:
            n += 1
        else:
            chk.violation('invalid options', 'EarlyStoppingAction accepts %s' % kw, kw)
    return n
