"""C06: checkpoint state surgery moves exactly the requested leaves.

Generated states, rule lists and fallback states are given to the real
assignment map, merge and intersection functions and to real restores (classic
and Orbax); TLC judges every outcome with spec/AssignMap.tla.
"""
import random
import re
import shutil
import tempfile

from harness import pool, tlc

DEVICES = 1
INNER = ['enc', 'dec', 'Enc', 'enc2', 'layers_1', 'layers_10', 'mlp.0', 'a+b', 'x']
LEAF = ['w', 'b', 'w2', 'B']


def rname(r, depth=None):
    return [r.choice(INNER[:r.choice([2, 3, 5, 9])]) for _ in range(depth or r.randint(1, 3))] + [r.choice(LEAF)]


def rule(r, names):
    n = list(r.choice(names)) if r.random() < 0.85 else ['target'] + rname(r)
    pat = list(n)
    wild = 0
    for i in range(len(pat)):
        if wild < 2 and r.random() < 0.3:
            pat[i] = '*'
            wild += 1
    if wild < 2 and len(pat) > 1 and r.random() < 0.25:
        pat = pat[:r.randint(1, len(pat) - 1)] + ['**']
        wild = sum(x in ('*', '**') for x in pat)
    if r.random() < 0.06:
        pat, wild = ['**'], 1
    if r.random() < 0.1:       # a mere prefix: must not match
        pat = pat[:-1] or pat
        wild = sum(x in ('*', '**') for x in pat)
    if r.random() < 0.25:
        return dict(pat=pat, none=True, repl=[])
    if r.random() < 0.4:       # move within: replace constants, keep groups
        g, repl = 0, []
        for x in pat:
            if x in ('*', '**'):
                g += 1
                repl.append('$%d' % g)
            elif x != 'target' and r.random() < 0.5:
                repl.append(r.choice(INNER[:5]))
            else:
                repl.append(x)
    else:
        repl = list(r.choice(names))
        if wild and r.random() < 0.6:
            repl[r.randrange(len(repl))] = '$%d' % r.randint(1, wild)
    if repl and repl[-1] in INNER:
        repl[-1] = r.choice(LEAF)
    return dict(pat=pat, none=False, repl=repl)


def regex(rl):
    out = []
    for x in rl['pat']:
        out.append('([^/]+)' if x == '*' else '(.+)' if x == '**' else re.escape(x))
    pat = '/'.join(out)
    if rl.get('star'):         # the same set of names, written differently
        pat = pat.replace('(.+)', '(.*)').replace('([^/]+)', '([^/]*)')
    if rl['none']:
        return (pat, None)
    return (pat, '/'.join('\\' + x[1] if x[0] == '$' else x for x in rl['repl']))


def state(names, ids):
    import flax.traverse_util as tu
    return tu.unflatten_dict({tuple(n): i for n, i in zip(names, ids)})


def unstate(d):
    from t5x import state_utils
    return [dict(k=k.split('/'), v=0 if v is None else v) for k, v in sorted(state_utils.flatten_state_dict(d).items())]


def uniq(names):
    return [list(x) for x in sorted(set(map(tuple, names)))]


def gen(r, maxn=7):
    pool_ = uniq(['target'] + rname(r) for _ in range(r.randint(2, maxn)))
    opt = uniq(r.sample(pool_, r.randint(1, len(pool_))))
    ck = uniq(r.sample(pool_, r.randint(1, len(pool_))) + ([['target'] + rname(r)] if r.random() < 0.3 else []))
    if r.random() < 0.3:
        opt.append(['state', 'step'])
        ck.append(['state', 'step'])
    if r.random() < 0.3:
        ck = uniq(ck + opt)
    rules = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        rl = rule(r, r.choice([opt, ck, pool_]))
        # steer towards sources that exist, most of the time
        if not rl['none'] and r.random() < 0.8 and not any(x[0] == '$' for x in rl['repl']):
            rl['repl'] = list(r.choice(ck))
        rl['star'] = r.random() < 0.5
        rules.append(rl)
    if r.random() < 0.1:       # one leaf is left fresh, another takes the value of its neighbour
        a = ['target'] + rname(r)[:-1]
        x, y = r.choice([('w', 'w2'), ('w2', 'w'), ('b', 'B')])
        z = r.choice(opt)
        opt = uniq(opt + [a + [x], a + [y]])
        ck = uniq(ck + r.sample([a + [x], a + [y]], r.choice([1, 2, 2])))
        new = [dict(pat=a + [x], none=True, repl=[], star=False)]
        if z[0] == 'target' and z not in (a + [x], a + [y]):
            new.append(dict(pat=z, none=False, repl=a + [y], star=False))
        r.shuffle(new)
        rules = new + rules
    return opt, ck, rules


def pure_cases(seed, num):
    from t5x import state_utils as su
    r = random.Random(seed)
    cases = []
    for _ in range(num):
        op = r.choice(['apply'] * 5 + ['merge', 'intersect'])
        opt, ck, rules = gen(r)
        a = [dict(k=n, v=i + 1) for i, n in enumerate(ck)]
        sa = state(ck, range(1, len(ck) + 1))
        before = repr(sa)
        c = dict(op=op, a=a, err=False, res=[])
        try:
            if op == 'apply':
                c.update(opt=opt, rules=rules, require=r.random() < 0.4, resuming=r.random() < 0.08)
                kw = {} if c['require'] and r.random() < 0.5 else dict(require_all_rules_match=c['require'])
                so = state(opt, range(100, 100 + len(opt)))
                res = su.apply_assignment_map(sa, so, [regex(x) for x in rules],
                                              is_resuming=c['resuming'], **kw)
                if repr(so) != repr(state(opt, range(100, 100 + len(opt)))):
                    c['res'] = [dict(k=['changed'], v=0)]
                    cases.append(c)
                    continue
            else:
                b = [dict(k=n, v=i + 50) for i, n in enumerate(opt)]
                if r.random() < .3:     # leaves without a value (as of unused optimizers)
                    for x in r.sample(a + b, r.randint(1, len(a + b))):
                        x['v'] = 0
                sa, sb = (state([x['k'] for x in q], [x['v'] or None for x in q]) for q in (a, b))
                before = repr(sa)
                c.update(b=b)
                if op == 'merge':
                    c['overwrite'] = r.random() < 0.5
                    kw = {} if not c['overwrite'] and r.random() < 0.5 else dict(overwrite=c['overwrite'])
                    res = su.merge_state(sa, sb, **kw)
                else:
                    res = su.intersect_state(sa, sb)
            c['res'] = unstate(res)
            if repr(sa) != before:
                c['res'].append(dict(k=['argument', 'changed'], v=0))
        except ValueError:
            c['err'] = True
        cases.append(c)
    return cases


def mixes(rl):
    """The rule gives the step the value of a parameter or the reverse."""
    pat, repl = regex(rl)
    if repl is None:
        return False
    m = re.fullmatch(pat, 'state/step')
    return m.expand(repl) != 'state/step' if m else repl.startswith('state')


def restores(item):
    """Restores of real checkpoints through assignment maps."""
    import functools
    import numpy as np
    import jax.numpy as jnp
    from flax.linen import partitioning as fp
    from harness import zoo
    from t5x import checkpoints, optimizers, state_utils, train_state as tsl
    seed, num = item
    r = random.Random(seed)
    p = zoo.partitioner(1, 1)
    cases = []

    def make(names, ids):
        v = {'params': {}, 'params_axes': {}}
        flat = {tuple(n[1:]): jnp.full((2, 3), float(i), jnp.float32) for n, i in zip(names, ids)}
        ax = {k[:-1] + (k[-1] + '_axes',): fp.AxisMetadata(names=('embed', 'kv')) for k in flat}
        import flax.traverse_util as tu
        v = {'params': tu.unflatten_dict(flat), 'params_axes': tu.unflatten_dict(ax)}
        st = tsl.FlaxOptimTrainState.create(optimizers.sgd(0.1), v)
        sd = st.state_dict()
        sd['state']['step'] = jnp.asarray(ids[-1], jnp.int32)
        return st.restore_state(sd)

    def read(sd):
        return [dict(k=k.split('/'), v=int(np.asarray(x).reshape(-1)[0]))
                for k, x in sorted(zoo.leaves(sd).items())]

    for _ in range(num):
        opt, ck, rules = gen(r, 6)
        rules = [x for x in rules if not mixes(x)]
        opt = [n for n in opt if n[0] == 'target'] or [['target', 'enc', 'w']]
        ck = [n for n in ck if n[0] == 'target'] or [['target', 'enc', 'w']]
        orbax = r.random() < 0.5
        root = tempfile.mkdtemp()
        saved = make(ck, list(range(1, len(ck) + 2)))
        if orbax:
            m = checkpoints.OrbaxCheckpointManagerInterface(root, saved, p)
            m.save(saved)
            m.wait_until_finished()
            m.close()
        else:
            checkpoints.Checkpointer(saved, p, root).save(saved)
        job = make(opt, list(range(100, 101 + len(opt))))
        fallback = r.random() < 0.6
        c = dict(op='restore', a=[dict(k=n, v=i + 1) for i, n in enumerate(ck)] +
                 [dict(k=['state', 'step'], v=len(ck) + 1)],
                 opt=opt + [['state', 'step']], rules=rules, require=r.random() < 0.3,
                 fallback=fallback, b=[], err=False, res=[], orbax=orbax)
        fb = None
        if fallback:
            fb = job.state_dict()
            c['b'] = read(fb)
        fns = [functools.partial(state_utils.apply_assignment_map,
                                 assignment_map=[regex(x) for x in rules],
                                 require_all_rules_match=c['require'])]
        try:
            if orbax:
                m = checkpoints.OrbaxCheckpointManagerInterface(root, job, p)
                try:
                    st = m.restore(step=len(ck) + 1, fallback_state=fb, state_transformation_fns=fns)
                finally:
                    m.close()
            else:
                st = checkpoints.Checkpointer(job, p, root).restore(
                    fallback_state=fb, state_transformation_fns=fns)
            c['res'] = read(st.state_dict())
        except Exception as e:  # pylint: disable=broad-except
            c['err'] = True
            c['what'] = '%s: %s' % (type(e).__name__, str(e)[:120])
        shutil.rmtree(root, ignore_errors=True)
        cases.append(c)
    return cases


def pure(item):
    return pure_cases(*item)


def run(chk):
    chk.spec('AssignMapMC', tlc.check('AssignMapMC', tlc.cfg(
        spec='Spec', constants=dict(MaxRules=chk.n(1, 2)),
        invariants=['NoInvention', 'Functional', 'KeepSame', 'Assigned', 'SkipLeaves', 'NoLoss',
                    'FallbackComplete'])))
    cases = []
    for rs in pool.pmap(chk, 'harness.checks.c06', 'pure',
                        [(chk.seed * 1000 + k, chk.n(600, 6000)) for k in range(4)], procs=4):
        cases += rs or []
    for rs in pool.pmap(chk, 'harness.checks.c06', 'restores',
                        [(chk.seed * 777 + k, chk.n(9, 90)) for k in range(8)], procs=8, devices=1):
        cases += rs or []
    bad, n = tlc.judge('AssignMap', cases)
    ops = {}
    for c in cases:
        k = c['op'] + ('/error' if c['err'] else '')
        ops[k] = ops.get(k, 0) + 1
    for i in bad:
        c = cases[i]
        chk.violation(c['op'], '%s%s: outcome %s is not what the rules give (rules %s)' % (
            c['op'], '/orbax' if c.get('orbax') else '',
            'error ' + c.get('what', '') if c['err'] else [('/'.join(x['k']), x['v']) for x in c['res']],
            [regex(x) for x in c.get('rules', [])]), c)
    chk.validated(n, cases[0])
    chk.note(calls_judged=ops)
    chk.assumptions += ['leaf names never are inner names (states are trees)']
