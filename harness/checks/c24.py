"""C24: learning-rate schedules follow their factor string at every step.

Schedules of generated configurations are evaluated by the real code at
generated steps; TLC judges every rate against spec/Schedule.tla in exact
rational arithmetic.
"""
import random
from fractions import Fraction

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 1
NAMES = ['constant', 'linear_warmup', 'linear_decay', 'rsqrt_decay', 'rsqrt_normalized_decay',
         'decay_every', 'cosine_decay']
SQUARES = [1, 4, 9, 16, 25, 36]


def frac(v):
    v = float(v)
    if not abs(v) < 1000:
        return [99991, 1]
    f = Fraction(v).limit_denominator(1000)
    if abs(float(f) - v) > 6e-7 * max(1, abs(v)):
        return [99991, 1]
    return [f.numerator, f.denominator]


def case(r):
    kind = r.choice(['plain', 'plain', 'rsqrt', 'squared', 'cosine', 'linear_decay', 'unknown'])
    base = r.choice([Fraction(1), Fraction(2), Fraction(1, 2), Fraction(3, 4), Fraction(5, 4)])
    decay = r.choice([Fraction(1, 2), Fraction(1, 4)])
    warmup = r.randint(1, 6)
    every, cycle = r.choice([7, 10, 15]), r.choice([6, 12, 18])
    offset = r.choice([0, 0, 3, 11, 100])
    lo = r.choice([None, None, Fraction(0), Fraction(1, 8), Fraction(1, 2)])
    rel = [0, 1, warmup - 1, warmup, warmup + 1] + [r.randint(0, 12) for _ in range(3)]
    if kind == 'plain':
        f = [r.choice(['constant', 'linear_warmup', 'decay_every']) for _ in range(r.randint(1, 3))]
        rel += [every - 1, every, every + 1, 2 * every]
        if f.count('decay_every') > 1:
            f = f[:1]
        if decay == Fraction(1, 4):
            rel = [s for s in rel if s < 2 * every]
    elif kind == 'rsqrt':
        f = ['constant', 'linear_warmup', r.choice(['rsqrt_decay', 'rsqrt_normalized_decay'])]
        r.shuffle(f)
        f = f[:r.randint(1, 3)]
        warmup = r.choice([1, 4, 9])
        rel = SQUARES + [0] + [s for s in range(warmup)]
    elif kind == 'squared':
        f = [r.choice(['constant', 'rsqrt_decay', 'rsqrt_normalized_decay']) for _ in range(r.randint(1, 2))]
        if len(set(f)) == 1:
            f = f[:1]
        if len(f) == 2 and 'constant' not in f:
            f = f[:1]
        warmup, lo = r.randint(1, 8), None
        rel = [0, warmup - 1, warmup, warmup + 1] + [r.randint(0, 40) for _ in range(6)]
    elif kind == 'cosine':
        f = ['cosine_decay'] + [x for x in ('constant', 'linear_warmup') if r.random() < .5]
        r.shuffle(f)
        rel = [0, warmup] + [warmup + k * cycle + j * cycle // 6 for k in (0, 1, 3) for j in (0, 2, 3, 4)]
        rel += list(range(warmup))
    elif kind == 'linear_decay':
        f = ['linear_decay']
        rel += [warmup + 2, warmup + 4, warmup + 5, warmup + 30]
    else:
        f = ['constant', r.choice(['rsqrt', 'linear', '', 'Constant', 'cosine'])]
        r.shuffle(f)
    steps = sorted({offset + s for s in rel if s >= 0} | {max(0, offset - 1), 0})
    if kind == 'cosine' or kind == 'rsqrt':
        steps = [s for s in steps if s >= offset or True]
    return dict(kind=kind, factors=f, base=base, decay=decay, warmup=warmup, every=every, cycle=cycle,
                offset=offset, min=lo, steps=steps)


def runs(item):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from t5x import utils
    seed, num = item
    r = random.Random(seed)
    out = []
    for k in range(num):
        c = case(r)
        sep = r.choice(['*', ' * ', '* ', '  *'])
        kw = dict(base_learning_rate=float(c['base']), warmup_steps=c['warmup'], decay_factor=float(c['decay']),
                  steps_per_decay=c['every'], steps_per_cycle=c['cycle'], step_offset=c['offset'])
        if c['min'] is not None:
            kw['min_learning_rate'] = float(c['min'])
        points, error = [], False
        try:
            fn = utils.create_learning_rate_scheduler(sep.join(c['factors']), **kw)
            if r.random() < .3:
                fn = jax.jit(fn)
            for s in c['steps']:
                v = fn(r.choice([jnp.asarray(s), jnp.asarray(s, jnp.int32), np.int64(s)]))
                if v.dtype != jnp.float32 or v.shape != ():
                    v = float('nan')
                points.append(dict(step=s, v=frac(float(v) ** 2 if c['kind'] == 'squared' else v)))
        except ValueError:
            error = True
        q = lambda f: [f.numerator, f.denominator]
        out.append(dict(factors=c['factors'], base=q(c['base']), decay=q(c['decay']),
                        min=q(c['min'] or Fraction(0)), warmup=c['warmup'], every=c['every'], cycle=c['cycle'],
                        offset=c['offset'], points=points, error=error, squared=c['kind'] == 'squared',
                        id='seed %d case %d: %s %s' % (seed, k, sep.join(c['factors']), kw)))
    return out


def run(chk):
    st = tlc.check('ScheduleMC', cfg(
        spec='Spec', constants=dict(Warmups=Raw('1..%d' % chk.n(3, 6)), Offsets=Raw('{0, 2, 5}'), Every=4,
                                    MaxStep=chk.n(12, 20)),
        invariants=['Floor', 'Peak', 'BeforeOffset'], properties=['Rises', 'Falls', 'Jumps']))
    chk.spec('ScheduleMC', st)
    cases = [c for h in pool.pmap(chk, 'harness.checks.c24', 'runs',
                                  [(chk.seed * 1000 + k, chk.n(50, 1200)) for k in range(8)], procs=8, devices=1)
             for c in h or []]
    bad, n = tlc.judge('Schedule', cases)
    for i in bad:
        c = cases[i]
        chk.violation(c['id'], 'error' if c['error'] else 'rates %s' % c['points'], c)
    chk.validated(n, cases[0] if cases else None)
    chk.note(points=sum(len(c['points']) for c in cases))
