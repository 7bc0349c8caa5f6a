"""C30: training with a wrapped Optax optimizer is training with Optax itself.

Random compositions of Optax transformations with integer arithmetic run inside
real train states, with dumps and restores at any point; TLC computes every
parameter and every place of the state (spec/OptaxWrap.tla).
"""
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 1
DIMS = ['embed', 'mlp', 'vocab', 'heads']
NAMES = ['enc', 'dec', 'w', 'b', 'count', 'trace', 'mu', 'layers_0', '0', '1', 'step', 'inner_state', 'params', 'state']
BIG = 1 << 21


def random_opt(r, paths, depth, top=True):
    def node(k, c=0, d=0, of=(), on=()):
        return dict(k=k, c=c, d=d, of=list(of), on=list(on))
    c = r.random()
    if depth == 0 or (not top and c < .4):
        k = r.choice(['scale', 'decay', 'trace', 'trace', 'trace', 'sched', 'every'])
        return node(k, dict(scale=r.choice([-1, -1, 2]), decay=r.choice([-1, 1]), trace=r.choice([1, 2, -1]),
                            sched=r.choice([0, 1]), every=r.choice([2, 3]))[k], r.choice([0, 1]) if k == 'trace' else 0)
    sub = lambda: random_opt(r, paths, depth - 1, False)
    some = lambda: sorted(r.sample(paths, r.randint(0, len(paths))))
    k = r.choice(['chain', 'chain', 'steps', 'cond', 'mask', 'multi'] + ['finite'] * top)
    if k == 'chain':
        return node('chain', of=[sub() for _ in range(r.choice([2, 2, 3]))])
    if k == 'steps':
        return node('steps', r.choice([1, 2, 3]), of=[sub()])
    if k == 'cond':
        return node('cond', r.choice([1, 2]), of=[sub()])
    if k == 'finite':
        return node('finite', 2, of=[sub()])
    if k == 'mask':
        return node('mask', of=[sub()], on=some())
    return node('multi', of=[sub(), sub()], on=some())


def real(o):
    """The Optax transformation."""
    import optax
    of = [real(x) for x in o['of']]
    on = set(o['on'])

    def chosen(tree):
        import jax
        return jax.tree_util.tree_map_with_path(lambda p, _: '/'.join(str(k.key) for k in p) in on, tree)

    def labels(tree):
        import jax
        return jax.tree.map(lambda b: 'x' if b else 'y', chosen(tree))
    c = o['c']
    return {
        'scale': lambda: optax.scale(c), 'decay': lambda: optax.add_decayed_weights(c),
        'trace': lambda: optax.trace(c, nesterov=o['d'] == 1),
        'sched': lambda: optax.scale_by_schedule(lambda n: n + c), 'every': lambda: optax.apply_every(c),
        'steps': lambda: optax.MultiSteps(of[0], c, use_grad_mean=False).gradient_transformation(),
        'cond': lambda: optax.conditionally_transform(of[0], lambda n: n >= c),
        'finite': lambda: optax.apply_if_finite(of[0], c),
        'mask': lambda: optax.masked(of[0], chosen), 'multi': lambda: optax.multi_transform(dict(x=of[0], y=of[1]), labels),
        'chain': lambda: optax.chain(*of)}[o['k']]()


def flat(tree):
    from flax import traverse_util as tu
    from flax.core import unfreeze
    tree = unfreeze(tree)
    return {} if not isinstance(tree, dict) or not tree else tu.flatten_dict(tree, sep='/')


def whole(v):
    """The number all elements of an array are; -7777777 if they differ or are no integer."""
    import numpy as np
    v = np.asarray(v)
    x = v.reshape(-1)[0]
    ok = bool(np.all(v == x)) and float(x) == int(x)
    return int(x) if ok else -7777777


class Drawn(Exception):
    pass


def history(r, ident, length):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optax
    from flax import traverse_util as tu
    from flax.core import freeze
    from flax.linen import partitioning as fp
    from t5x import optimizers as O, train_state as ts
    tree = {}
    while len(tree) < r.randint(2, 4):
        path = tuple(r.choice(NAMES) for _ in range(r.randint(1, 3)))
        if not any(q[:len(path)] == path or path[:len(q)] == q for q in tree):
            rank = r.choice([1, 2, 2])
            tree[path] = (tuple(r.choice([2, 3, 4]) for _ in range(rank)), tuple(r.sample(DIMS, rank)))
    paths = ['/'.join(p) for p in tree]
    opt = random_opt(r, paths, r.choice([1, 2, 2, 3]))
    full = lambda v: tu.unflatten_dict({p: jnp.full(tree[p][0], v['/'.join(p)], jnp.float32) for p in tree})
    start = {p: r.choice([-2, -1, 1, 3]) for p in paths}
    axes = tu.unflatten_dict({p[:-1] + (p[-1] + '_axes',): fp.AxisMetadata(names=a) for p, (_, a) in tree.items()})
    wrapped = O.OptaxWrapper(real(opt)) if opt['k'] != 'chain' or r.random() < .5 else O.chain([real(x) for x in opt['of']])
    st = ts.FlaxOptimTrainState.create(wrapped, freeze({'params': full(start), 'params_axes': axes}))
    # Optax itself, only to stay among numbers that are exact
    ref = real(opt)
    rp = freeze(full(start))
    rs = ref.init(rp)
    ev, dumps, refs = [], [], []
    jit = r.random() < .3
    step = lambda s, g: s.apply_gradient(g, learning_rate=.25)
    if jit:
        step = jax.jit(step)

    def see(e):
        d = st.state_dict()
        e['p'] = [[k, whole(v)] for k, v in sorted(flat(d['target']).items())]
        e['st'] = [[k, whole(v)] for k, v in sorted(flat(d['state'].get('param_states', {})).items())]
        e['n'] = whole(d['state']['step'])
        extra = set(d) - {'target', 'state'} or set(d['state']) - {'step', 'param_states'}
        if extra:
            e['p'].append(['?' + str(sorted(extra)), 0])
        ev.append(e)
    bads = 0
    for op in ['axes'] + [r.choice(['train'] * 4 + ['dump', 'load', 'load', 'lack', 'axes']) for _ in range(length)]:
        if op == 'train':
            bad = opt['k'] == 'finite' and bads < 2 and r.random() < .35
            bads = bads + 1 if bad else 0
            g = {p: r.randint(-3, 3) for p in paths}
            gr = full(g)
            if bad:
                p = r.choice(list(tree))
                q = tu.flatten_dict(gr)
                q[p] = q[p].at[..., 0].set(r.choice([np.nan, np.inf]))
                gr = tu.unflatten_dict(q)
            gr = freeze(gr)
            u, rs2 = ref.update(gr, rs, rp)
            rp2 = optax.apply_updates(rp, u)
            if any(np.max(np.abs(np.nan_to_num(np.asarray(x, np.float64)))) > BIG for x in jax.tree.leaves((rp2, rs2, u))):
                break
            rp, rs = rp2, rs2
            st = step(st, gr)
            see(dict(op='train', g=[[k, v] for k, v in g.items()], bad=bad))
        elif op == 'dump':
            dumps.append((st.state_dict(), bads))
            refs.append((rp, rs))
            see(dict(op='dump'))
        elif op == 'load' and dumps:
            j = r.randrange(len(dumps))
            d, bads = dumps[j]
            rp, rs = refs[j]
            if r.random() < .5:     # as numpy arrays, entries in another order (as read from storage)
                def turned(x):
                    if not isinstance(x, dict):
                        return np.asarray(x)
                    ks = list(x)
                    r.shuffle(ks)
                    return {k: turned(x[k]) for k in ks}
                d = turned(jax.tree.map(lambda x: x, dict(d)))
            # into this state, or into a fresh one
            into = st if r.random() < .6 else ts.FlaxOptimTrainState.create(
                wrapped, freeze({'params': full({p: 9 for p in paths}), 'params_axes': axes}))
            st = into.restore_state(d)
            see(dict(op='load', j=j + 1))
        elif op == 'lack':
            d = st.state_dict()
            q = tu.flatten_dict(d)
            ks = [k for k in q if k[:2] == ('state', 'param_states')]
            if not ks:
                continue
            del q[r.choice(ks)]
            q = tu.unflatten_dict(q)
            try:
                st.restore_state(q)
                raised = False
            except (ValueError, KeyError):
                raised = True
            see(dict(op='lack', raised=raised))
        elif op == 'axes':
            a = st.as_logical_axes()
            if r.random() < .5:     # as the partitioner finds them: of a state without arrays
                a = jax.eval_shape(lambda s: s, st).as_logical_axes()
            got = flat(a.state_dict()['state'].get('param_states', {}))
            see(dict(op='axes', axes=[[k, [] if v is None else [str(x) for x in v]] for k, v in sorted(got.items())]))
    return dict(id=ident, opt=opt, params=[[k, v] for k, v in start.items()], ev=ev,
                axes=[['/'.join(p), list(a)] for p, (_, a) in tree.items()])


def runs(item):
    seed, ns, length = item
    out = []
    for n in ns:
        r = random.Random('%d/%d' % (seed, n))
        ident = 'seed %d history %d' % (seed, n)
        try:
            out.append(history(r, ident, length))
        except Exception as e:
            import traceback
            out.append(dict(id=ident, failed='%s: %s' % (type(e).__name__, str(e)[:300]), where=traceback.format_exc()[-1500:]))
    return out


def run(chk):
    st = tlc.check('OptaxWrapMC', cfg(
        spec='Spec', constants=dict(Steps=chk.n(3, 4), Grads=Raw('{-1, 2}'), Wide=Raw(chk.n('FALSE', 'TRUE'))),
        invariants=['Resumes', 'Apart', 'Shape', 'Sums']), timeout=800)
    chk.spec('OptaxWrapMC', st)
    num = chk.n(320, 4000)
    hist = []
    for h in pool.pmap(chk, 'harness.checks.c30', 'runs',
                       [(chk.seed, list(range(i, num, 16)), chk.n(10, 16)) for i in range(16)], procs=8, devices=1):
        hist += h or []
    for h in [h for h in hist if 'failed' in h]:
        chk.violation(h['id'] + ': failed', '%s: %s\n%s' % (h['id'], h['failed'], h['where']), h)
    hist = [h for h in hist if 'failed' not in h]
    reached, st = tlc.validate('OptaxWrapTrace', cfg(spec='TSpec', constraints=['Track'], postcondition='Report'), hist)
    chk.spec('OptaxWrapTrace', st)
    for h, n in zip(hist, reached):
        if n < len(h['ev']):
            chk.violation('%s: %s' % (h['id'], h['ev'][n]['op']), '%s: operation %d: %s with %s' % (
                h['id'], n + 1, h['ev'][n], h['opt']), h)
    chk.validated(len(hist), hist[-1]['ev'][:3] if hist else None)
    chk.note(histories=len(hist), operations=sum(len(h['ev']) for h in hist))
