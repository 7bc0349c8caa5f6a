"""C23: several optimizers update exactly the parameters assigned to each.

Random parameter trees and selector lists are given to the real MultiOptimizer
(optimizers with integer arithmetic, which TLC recomputes, and Adafactor, whose
every step is compared with each optimizer alone on its own parameters), with
overrides of hyper-parameters, round trips through state dictionaries and the
derivation of axes; TLC validates every run against spec/MultiOpt.tla.
"""
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 1
NAMES = ['enc', 'w', 'w_0', 'w_old', 'b', 'b_1', 'scale', 'layer_0', 'layer_1', 'layer', 'emb', '0']


def defs():
    import jax
    import jax.numpy as jnp
    from flax import struct
    from t5x import optimizers

    @struct.dataclass
    class HP:
        lr: float = 0.0
        decay: float = 0.0

    @struct.dataclass
    class Acc:
        n: object
        acc: object
        at: object

    class Sum(optimizers.OptimizerDef):
        def init_state(self, params):
            f = lambda p: Acc(jnp.zeros_like(p), jnp.zeros_like(p), jnp.zeros_like(p) - 1)
            return optimizers.OptimizerState(jnp.zeros((), jnp.int32), jax.tree.map(f, params))

        def apply_gradient(self, hp, params, state, grads):
            s = state.step
            is_acc = lambda x: isinstance(x, Acc)
            new = jax.tree.map(lambda p, g: p - hp.lr * g - hp.decay * (s % 3), params, grads)
            ps = jax.tree.map(lambda q, g: Acc(q.n + 1, (3 * q.acc + g) % 101, q.at * 0 + s),
                              state.param_states, grads, is_leaf=is_acc)
            return new, optimizers.OptimizerState(s + 1, ps)

    class SumAxes(Sum):
        def derive_logical_axes(self, optimizer, axes):
            return optimizer.replace(target=axes, state=optimizers.OptimizerState(
                None, jax.tree.map(lambda a: Acc(a, a, None), axes)))
    return HP, Acc, Sum, SumAxes


def selectors(r, paths, k):
    """Selectors (a function of the path, and possibly of the value)."""
    out = []
    for _ in range(k):
        c = r.random()
        if c < .4:
            part = r.choice([q for p in paths for q in p.split('/')])
            out.append(('has ' + part, lambda p, v, part=part: part in p.split('/')))
        elif c < .6:
            end = r.choice(paths)[-1]
            out.append(('ends ' + end, lambda p, v, end=end: p.endswith(end)))
        elif c < .75:
            chosen = {'/' + p for p in r.sample(paths, r.randint(1, len(paths)))}
            out.append(('one of %s' % sorted(chosen), lambda p, v, c=chosen: p in c))
        elif c < .85:
            out.append(('nothing', lambda p, v: False))
        else:
            out.append(('starts ' + paths[0], lambda p, v, s='/' + paths[0].split('/')[0]: p.startswith(s)))
    if r.random() < .75:   # make them disjoint
        done = []
        for i, (n, f) in enumerate(out):
            earlier = [g for _, g in done]
            done.append((n + ' (rest)', lambda p, v, f=f, e=tuple(earlier): f(p, v) and not any(g(p, v) for g in e)))
        out = done
    return out


def play(kind, r, ident):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from flax import traverse_util as tu
    from flax.core import freeze
    from jax.sharding import PartitionSpec
    from t5x import adafactor, optimizers as O
    HP, Acc, Sum, SumAxes = defs()
    tree = {}
    while len(tree) < r.randint(3, 6):
        path = tuple(r.choice(NAMES) for _ in range(r.choice([1, 1, 2, 2, 3])))
        if not any(q[:len(path)] == path or path[:len(q)] == q for q in tree):
            tree[path] = (2,) if kind == 'sum' else r.choice([(3,), (4, 6), (6, 4), (2, 5)])
    paths = ['/'.join(p) for p in tree]
    names = {p: ['embed', 'mlp'][:len(s)] if r.random() < .5 else ['mlp', 'kv'][:len(s)]
             for p, s in zip(paths, tree.values())}
    frozen = r.random() < .7
    wrap = freeze if frozen else (lambda x: x)
    build = lambda fn, only=None: wrap(tu.unflatten_dict(
        {p: fn('/'.join(p), s) for p, s in tree.items() if only is None or '/'.join(p) in only}))
    k = r.randint(1, 3)
    sels = selectors(r, paths, k)
    sel = {p: [i + 1 for i, (_, f) in enumerate(sels) if f('/' + p, None)] for p in paths}
    own = [dict(lr=r.randint(0, 4), decay=r.randint(0, 2)) for _ in range(k)]
    opts = [r.choice([dict(factored=False), dict(beta1=.9), dict(multiply_by_parameter_scale=False),
                      dict(global_norm_clip_threshold=.5), dict(step_offset=0, decay_rate=.5), dict(
                          logical_factor_rules={a: adafactor.FactorDim.NONE for a in ('embed', 'mlp', 'kv')})])
            for _ in range(k)]
    withaxes = [kind != 'sum' or r.random() < .6 for _ in range(k)]

    def sub(i):
        if kind == 'sum':
            return (SumAxes if withaxes[i] else Sum)(HP(lr=float(own[i]['lr']), decay=float(own[i]['decay'])))
        return adafactor.Adafactor((own[i]['lr'] + 1) / 8, min_dim_size_to_factor=4, **opts[i])

    def axes_of(only=None):
        return build(lambda p, s: PartitionSpec(*names[p]), only)

    def multi():
        m = O.MultiOptimizer([(tu.ModelParamTraversal(f), sub(i)) for i, (_, f) in enumerate(sels)])
        m.set_param_axes(axes_of())
        return m

    start = {p: r.randint(-20, 20) for p in paths}
    if kind == 'sum':
        first = build(lambda p, s: jnp.full(s, float(start[p])))
    else:
        first = build(lambda p, s: jnp.asarray(np.random.default_rng(r.randrange(10**6)).normal(size=s), jnp.float32))
    seen = {}
    num = lambda x: seen.setdefault(x, len(seen))
    def whole(x):
        v = {float(y) for y in np.asarray(x).ravel()}
        return int(v.pop()) if len(v) == 1 and all(y == int(y) for y in v) else -9999
    def show_par(v):
        return whole(v) if kind == 'sum' else num((v.shape, np.asarray(v).tobytes()))
    def show_st(q):
        if q is None:
            return dict(n=-1, acc=0, at=0)
        if kind == 'sum':
            return {f: whole(getattr(q, f, -9)) for f in ('n', 'acc', 'at')}
        return dict(n=num(tuple((f, v.shape, np.asarray(v).tobytes()) for f, v in sorted(vars(q).items()))
                          if hasattr(q, 'v_row') else ('?', str(q))), acc=0, at=0)
    flat = lambda t: {'/'.join(p): v for p, v in tu.flatten_dict(dict(t)).items()} if not frozen else \
        {'/'.join(p): v for p, v in tu.flatten_dict(t.unfreeze()).items()}

    def show(opt):
        return dict(step=int(opt.state.step), par={p: show_par(v) for p, v in flat(opt.target).items()},
                    st={p: show_st(v) for p, v in flat(opt.state.param_states).items()})
    h = dict(id='%s: %s of %s' % (ident, [n for n, _ in sels], paths), kind=kind, sel=sel, own=own, names=names,
             start={p: show_par(v) for p, v in flat(first).items()}, ev=[])
    ev = h['ev']
    try:
        opt = multi().create(first)
    except ValueError as e:
        if 'Multiple optimizers match' not in str(e):
            raise
        ev.append(dict(op='create', refused=True))
        return h
    solos = []
    if kind != 'sum':
        for i in range(k):
            mine = {p for p in paths if i + 1 in sel[p]}
            if not mine:
                solos.append(None)
                continue
            s = sub(i)
            s.set_param_axes(axes_of(mine))
            solos.append(s.create(build(lambda p, _: flat(first)[p], mine)))

    def alone():
        return [{p: dict(par=show_par(flat(s.target)[p]), st=show_st(flat(s.state.param_states)[p]))
                 for p in flat(s.target)} if s else {'': 0} for s in solos]
    ev.append(dict(op='create', refused=False, alone=alone(), **show(opt)))
    jit = r.random() < .4
    for _ in range(r.randint(3, 8)):
        op = r.choice(['step'] * 4 + ['trip', 'axes'])
        if op == 'trip':
            opt = multi().create(build(lambda p, s: jnp.zeros(s))).restore_state(
                jax.tree.map(np.asarray, opt.state_dict()))
            ev.append(dict(op='trip', **show(opt)))
        elif op == 'axes':
            ax = opt.optimizer_def.derive_logical_axes(opt, axes_of())
            leaf = lambda v: v is None or isinstance(v, PartitionSpec)
            skeleton = lambda s: str(jax.tree.structure(jax.tree.map(
                lambda v: 0, (s.target, s.state), is_leaf=leaf)))
            out = {}
            for p in paths:
                q, a = flat(opt.state.param_states)[p], flat(ax.state.param_states)[p]
                fields = [] if q is None else [f for f in vars(q)]
                i = sel[p][0] - 1 if sel[p] else None
                txt = lambda v: ['none'] if v is None else list(v)
                out[p] = dict(par=txt(flat(ax.target)[p]), st=[txt(getattr(a, f)) for f in fields] or [txt(a)],
                              like=[getattr(q, f).shape == flat(opt.target)[p].shape and f != 'at' and i is not None and withaxes[i]
                                    for f in fields])
            ev.append(dict(op='axes', same=skeleton(ax) == skeleton(opt), axes=out))
        else:
            over = r.choice(['none', 'rate', 'all'] if kind == 'sum' else ['none', 'rate'])
            rate = r.randint(0, 5)
            gi = {p: r.randint(-5, 5) for p in paths}
            if kind == 'sum':
                g = build(lambda p, s: jnp.full(s, float(gi[p])))
            else:
                g = build(lambda p, s: jnp.asarray(np.random.default_rng(r.randrange(10**6)).normal(size=s), jnp.float32))
            hps = [dict(lr=r.randint(0, 4), decay=r.randint(0, 2)) for _ in range(k)]
            kw = {}
            if over == 'rate':
                kw = {'lr': float(rate)} if kind == 'sum' else {'learning_rate': rate / 8}
            elif over == 'all':
                kw = {'hyper_params': [HP(lr=float(x['lr']), decay=float(x['decay'])) for x in hps]}
            step = lambda o, gr, x: o.apply_gradient(gr, **x)
            opt = (jax.jit(step) if jit and kind == 'sum' else step)(opt, g, kw)
            for i, s in enumerate(solos):
                if s:
                    solos[i] = s.apply_gradient(build(lambda p, _: flat(g)[p], set(flat(s.target))), **kw)
            ev.append(dict(op='step', over=over, rate=rate, hps=hps, grads=gi, alone=alone(), **show(opt)))
    return h


def runs(item):
    seed, num = item
    out = []
    for n in range(num):
        kind = 'other' if n % 4 == 3 else 'sum'
        out.append(play(kind, random.Random('%d %d' % (seed, n)), 'seed %d run %d' % (seed, n)))
    return out


def run(chk):
    st = tlc.check('MultiOpt', cfg(
        spec='Spec', constants=dict(Params=Raw('{"a", "b", "c"}' if chk.thorough else '{"a", "b"}'), Opts=Raw('{1, 2, 3}' if chk.thorough else '{1, 2}'),
                                    Grads=Raw('{-1, 2}'), Rates=Raw('{3}'), MaxStep=chk.n(3, 2), Cap=0),
        invariants=['Separate', 'Refused']))
    chk.spec('MultiOpt', st)
    hist = []
    for h in pool.pmap(chk, 'harness.checks.c23', 'runs',
                       [(chk.seed * 100 + i, chk.n(32, 250)) for i in range(8)], procs=8, devices=1):
        hist += h or []
    reached, st = tlc.validate('MultiOptTrace', cfg(
        spec='TSpec', constants=dict(Params=Raw('{}'), Opts=Raw('{}'), Grads=Raw('{}'), Rates=Raw('{}'), MaxStep=0, Cap=0),
        constraints=['Track'], postcondition='Report'), hist)
    chk.spec('MultiOptTrace', st)
    for h, n in zip(hist, reached):
        if n < len(h['ev']):
            chk.violation('%s: %s' % (h['id'], h['ev'][n]['op']), '%s: event %d: %s after %s' % (
                h['id'], n + 1, h['ev'][n], h['ev'][n - 1] if n else h['start']), h)
    chk.validated(len(hist), hist[0])
    chk.note(runs=len(hist), refused=sum(h['ev'][0]['refused'] for h in hist),
             steps=sum(e['op'] == 'step' for h in hist for e in h['ev']))
