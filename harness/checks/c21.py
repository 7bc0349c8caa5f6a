"""C21: train states survive conversion and replacement without loss.

Random histories of conversions, replacements, training steps and edits of
dictionaries on real train states (28 optimizer state structures, inference
states, random parameter trees and flax mutables).  After every operation
the content of all states and dictionaries is observed, part by part, and TLC
validates the history against spec/TrainState.tla.
"""
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 1
AXES = ('embed', 'mlp', 'vocab', 'heads', 'kv')


def optimizers():
    import jax
    import jax.numpy as jnp
    import optax
    from flax import traverse_util as tu
    from t5x import adafactor, optimizers as O
    sch = optax.linear_schedule(0.1, 0.0, 10)
    mask = lambda p: jax.tree.map(lambda x: x.ndim == 2, p)
    kinds = lambda p: jax.tree.map(lambda x: 'x' if x.ndim == 2 else 'y', p)
    F = adafactor.FactorDim
    W = O.OptaxWrapper
    return {
        'adabelief': lambda: O.adabelief(.1), 'adagrad': lambda: O.adagrad(.1), 'adam': lambda: O.adam(.1),
        'adam schedule': lambda: O.adam(sch), 'adamw': lambda: O.adamw(.1), 'adamw mask': lambda: O.adamw(.1, mask=mask),
        'amos': lambda: O.amos(.1, eta_fn=lambda p, s: jnp.ones(()), shape_fn=lambda p, s: ()),
        'fromage': lambda: O.fromage(.1), 'lars': lambda: O.lars(.1), 'lamb': lambda: O.lamb(.1),
        'lion': lambda: O.lion(.1), 'radam': lambda: O.radam(.1), 'rmsprop': lambda: O.rmsprop(.1),
        'noisy': lambda: O.noisy_sgd(.1, key=1),
        'rmsprop centered': lambda: O.rmsprop(.1, centered=True, momentum=.9), 'sgd': lambda: O.sgd(.1),
        'sgd momentum': lambda: O.sgd(.1, momentum=.9, nesterov=True), 'yogi': lambda: O.yogi(.1),
        'chain': lambda: O.chain([optax.clip_by_global_norm(1.), optax.scale_by_adam(),
                                  optax.add_decayed_weights(.1), optax.scale(-.1)]),
        'multi steps': lambda: W(optax.MultiSteps(optax.adam(.1), 2).gradient_transformation()),
        'multi steps skip': lambda: W(optax.MultiSteps(
            optax.adam(.1), 2, should_skip_update_fn=optax.skip_not_finite).gradient_transformation()),
        'masked': lambda: O.chain([optax.masked(optax.adam(.1), mask), optax.scale(1.)]),
        'masked multi steps': lambda: O.chain([optax.masked(
            optax.MultiSteps(optax.adam(.1), 2).gradient_transformation(), mask), optax.scale(1.)]),
        'masked zero nans': lambda: O.chain([optax.masked(optax.zero_nans(), mask), optax.scale(-.1)]),
        'multi transform': lambda: W(optax.multi_transform(
            {'x': optax.chain(optax.trace(.9), optax.adam(.1)), 'y': optax.set_to_zero()}, kinds)),
        'if finite': lambda: W(optax.apply_if_finite(optax.adam(.1), 3)),
        'ema': lambda: O.chain([optax.ema(.9), optax.scale(-.1)]),
        'zero nans': lambda: O.chain([optax.zero_nans(), optax.scale(-.1)]),
        'trust ratio': lambda: O.chain([optax.scale_by_trust_ratio(), optax.scale(-.1)]),
        'conditional': lambda: O.chain([optax.conditionally_transform(optax.scale_by_adam(), lambda s: s > 2),
                                        optax.scale(-.1)]),
        'belief schedule': lambda: O.chain([optax.scale_by_belief(), optax.scale_by_schedule(sch)]),
        'named': lambda: W(optax.named_chain(('n1', optax.trace(.9)), ('n2', optax.scale(.1)))),
        'apply every': lambda: O.chain([optax.apply_every(2), optax.scale(.1)]),
        'adafactor': lambda: adafactor.Adafactor(.1, min_dim_size_to_factor=4),
        'adafactor momentum': lambda: adafactor.Adafactor(.1, beta1=.9, factored=False),
        'adafactor rules': lambda: adafactor.Adafactor(
            .1, beta1=.9, min_dim_size_to_factor=1,
            logical_factor_rules=dict({a: F.NONE for a in AXES}, embed=F.ROW, mlp=F.COLUMN)),
        'multi': lambda: O.MultiOptimizer([
            (tu.ModelParamTraversal(lambda p, _: p.endswith('w')), adafactor.Adafactor(.1, min_dim_size_to_factor=2)),
            (tu.ModelParamTraversal(lambda p, _: p.endswith('b')), adafactor.Adafactor(.5, beta1=.9, factored=False))]),
    }


NAMES = ['a', 'b', 'w', 'layer_0', '0', '1', 'mu', 'count', 'state', 'target', 'step', 'param_states',
         'inner_state', 'v', 'm', 'trace', 'params', 'names', 'kernel']


class World:
    """Real states and dictionaries, and the numbers of the values seen."""

    def __init__(self, kind, r):
        import flax
        from flax.core import freeze
        from flax.linen import partitioning as fp
        from t5x import train_state as ts
        self.r, self.kind = r, kind
        self.seen = {}
        self.tree = {}
        # parameters: a random tree whose leaves end in w (matrices) or b
        while len(self.tree) < r.randint(2, 5):
            path = tuple(r.choice(NAMES) for _ in range(r.randint(0, 2))) + (r.choice(['w', 'b']),)
            if r.random() < .2:
                path = path[:-1] + (r.choice(NAMES) + path[-1],)
            if not any(q[:len(path)] == path or path[:len(q)] == q for q in self.tree):
                shape = (r.choice([2, 4, 8]), r.choice([4, 6])) if path[-1][-1] == 'w' else (r.choice([2, 3, 5]),)
                self.tree[path] = (shape, tuple(r.choice(AXES[:2] if r.random() < .7 else AXES)
                                                for _ in shape))
        if kind == 'adafactor rules':   # one row and one column
            self.tree = {p: (s, ('embed', 'mlp') if len(s) == 2 else ('kv',)) for p, (s, _) in self.tree.items()}
        self.mut = {}
        if r.random() < .6:
            for c in r.sample(['stats', 'cache', 'state', 'flax_mutables'], r.randint(1, 2)):
                for n in r.sample(NAMES[:8], r.randint(1, 3)):
                    path = (c, n) if r.random() < .5 else (c, 'deep', n)
                    shape = (2, 3) if r.random() < .5 else (3,)
                    self.mut[path] = (shape, tuple(r.choice(AXES) for _ in shape))
        v = {'params': self.values(self.tree), 'params_axes': self.names(self.tree)}
        for c, sub in self.values(self.mut).items():
            v[c] = sub
            v[c + '_axes'] = self.names({p[1:]: q for p, q in self.mut.items() if p[0] == c})
        self.x = {}
        self.states = [(
            'infer', ts.InferenceState.create(freeze(v))) if kind == 'inference' else
            ('train', ts.FlaxOptimTrainState.create(optimizers()[kind](), freeze(v)))]
        if kind != 'inference' and r.random() < .4:
            self.states.append(('infer', ts.InferenceState.create(freeze(v))))
        self.dicts = []
        self.ctx = (flax, fp)

    def names(self, tree):
        from flax import traverse_util as tu
        from flax.linen import partitioning as fp
        return tu.unflatten_dict({p[:-1] + (p[-1] + '_axes',): fp.AxisMetadata(names=a)
                                  for p, (_, a) in tree.items()})

    def values(self, tree):
        from flax import traverse_util as tu
        import jax.numpy as jnp
        return tu.unflatten_dict({p: jnp.asarray([[self.r.randint(-99, 99) / 8 for _ in range(s[-1])]
                                                  for _ in range(s[0] if len(s) == 2 else 1)],
                                                 jnp.float32).reshape(s) for p, (s, _) in tree.items()})

    # what is observed
    def number(self, part, content):
        return self.seen.setdefault((part, content), 1 + sum(k[0] == part for k in self.seen))

    def content(self, tree):
        import jax
        import numpy as np
        out = []
        for path, v in jax.tree_util.tree_flatten_with_path(tree)[0]:
            if jax.dtypes.issubdtype(getattr(v, 'dtype', np.int32), jax.dtypes.prng_key):
                v = jax.random.key_data(v)
            v = np.asarray(v)
            # the dtype of Python numbers is left open
            out.append((place(path), v.shape, str(v.dtype) if v.ndim else v.dtype.kind, v.tobytes() if v.ndim else v.item()))
        return tuple(sorted(out))

    def parts(self, p, o, s, m):
        mc = self.content(m)
        return dict(p=self.number('p', self.content(p)), o=0 if o is None else self.number('o', self.content(o)),
                    s=int(s), m=self.number('m', mc) if mc else 0)

    def look_state(self, k, st):
        import jax
        o = None if k == 'infer' else st.param_states
        x = self.number('x', (k, str(st.params_axes), str(st.flax_mutables_axes), type(st).__name__,
                              str(jax.tree.structure(st.params)), str(jax.tree.structure(o)),
                              type(st.flax_mutables).__name__,
                              '' if o is None else str(id(st._optimizer.optimizer_def))))
        return dict(self.parts(st.params, o, st.step, st.flax_mutables), kind=k, x=x)

    def look_dict(self, d):
        extra = set(d) - {'target', 'state', 'flax_mutables'} or set(d['state']) - {'step', 'param_states'}
        q = self.parts(d['target'], d['state'].get('param_states', {}), d['state']['step'], d.get('flax_mutables', {}))
        if 'param_states' not in d['state'] and not self.stateless(d):
            q['o'] = 0
        if extra:
            q['extra'] = sorted(extra)
        return q

    def stateless(self, d):
        """Dictionaries of optimizers without state have no param_states."""
        return any(d is e for e, k in self.dicts if k == 'train')

    def look(self):
        return dict(states=[self.look_state(*q) for q in self.states],
                    dicts=[self.look_dict(d) for d, _ in self.dicts])

    # operations
    def do(self, op):
        import jax
        import jax.numpy as jnp
        from flax.core import freeze
        r = self.r
        e = dict(op=op)
        n = r.randrange(len(self.states))
        if op == 'train':
            n = r.choice([i for i, q in enumerate(self.states) if q[0] == 'train'] or [None])
            if n is None:
                return None
        k, st = self.states[n]
        e['i'] = n + 1
        put = None
        if op == 'dump':
            if len(self.dicts) >= 3:
                return None
            self.dicts.append((st.state_dict(), k))
        elif op == 'edit':
            if not self.dicts:
                return None
            j = r.randrange(len(self.dicts))
            d, dk = self.dicts[j]
            part = r.choice(['p', 's', 'm'] + ['o'] * ('param_states' in d['state']))
            change = lambda x: jax.tree.map(
                lambda v: v if not hasattr(v, 'dtype') or not jnp.issubdtype(v.dtype, jnp.number)
                else v + jnp.asarray(r.randint(1, 9), v.dtype), x)
            if part == 'p':
                inplace(d['target'], change)
            elif part == 'o':
                inplace(d['state']['param_states'], change)
            elif part == 's':
                d['state']['step'] = jnp.asarray(r.randint(0, 90))
            elif not self.mut:
                return None
            elif 'flax_mutables' in d and r.random() < .7:
                inplace(d['flax_mutables'], change)
            elif 'flax_mutables' in d:
                del d['flax_mutables']
            else:
                d['flax_mutables'] = self.values(self.mut)
            e.update(j=j + 1, part=part, v=self.look_dict(d)[part])
        elif op == 'load':
            ok = [j for j, (d, dk) in enumerate(self.dicts) if k == 'infer' or dk == 'train']
            if not ok:
                return None
            j = r.choice(ok)
            put = st.restore_state(self.dicts[j][0])
            e['j'] = j + 1
        elif op == 'params':
            v = freeze(self.values(self.tree))
            put = st.replace_params(v)
            e['v'] = self.number('p', self.content(v))
        elif op == 'mutables':
            v = freeze(self.values(self.mut) if self.mut and r.random() < .7 else {})
            put = st.replace_flax_mutables(v)
            mc = self.content(v)
            e['v'] = self.number('m', mc) if mc else 0
        elif op == 'step':
            e['v'] = r.randint(0, 90)
            put = st.replace_step(jnp.asarray(e['v']))
        elif op == 'train':
            g = freeze(self.values(self.tree))
            if self.mut and r.random() < .7:
                v = freeze(self.values(self.mut))
                put = st.apply_gradient(g, learning_rate=.5, flax_mutables=v)
                e['v'] = self.number('m', self.content(v))
            else:
                put = st.apply_gradient(g, learning_rate=.5)
                e['v'] = 0
        elif op == 'axes':
            if bool(st.flax_mutables) != bool(st.flax_mutables_axes):
                return None
            self.axes(e, k, st)
        if put is not None:
            self.states.append((k, put))
        e.update(self.look())
        return e

    def axes(self, e, k, st):
        """Leaves of the state and of its axes, by place in the dictionary."""
        import jax
        from jax.sharding import PartitionSpec
        leaf = lambda v: v is None or isinstance(v, PartitionSpec)
        ax = st.as_logical_axes()
        shapes = {'/'.join(p): q for p, q in self.tree.items()}
        lv, av = [], []
        flat = lambda tree: [(place(p), v) for p, v in jax.tree_util.tree_flatten_with_path(tree, is_leaf=leaf)[0]]
        o = lambda s: {} if k == 'infer' else s.param_states
        for part, get in (('p', lambda s: s.params), ('o', o), ('m', lambda s: s.flax_mutables)):
            for path, v in flat(get(st)):
                shape = getattr(v, 'shape', ())
                like, names = '', ()
                if part == 'p':
                    names = shapes[path][1]
                elif part == 'm':
                    names = self.mut[tuple(path.split('/'))][1]
                elif v is not None and self.kind != 'apply every':   # unknown, so replicated
                    # the parameter this leaf mirrors: named inside its path, same shape
                    # (nothing is required where its path names several)
                    fit = {(p, a) for p, (s, a) in shapes.items()
                           if s == shape and '/%s/' % p in '/%s/' % path}
                    if len({a for _, a in fit}) == 1:
                        like, names = sorted(fit)[0]
                lv.append(dict(path=part + ':' + path, part=part, like=like, names=list(names), rank=len(shape)))
            for path, v in flat(get(ax)):
                av.append(dict(path=part + ':' + path, none=v is None, names=[] if v is None else list(v)))
        lv.append(dict(path='s', part='s', like='', names=[], rank=0))
        av.append(dict(path='s', none=ax.step is None, names=[]))
        # and the same tree (what the partitioner maps over)
        skeleton = lambda s: str(jax.tree.structure(jax.tree.map(lambda v: 0, s, is_leaf=leaf)))
        e.update(leaves=lv, axes=av, same=skeleton(ax) == skeleton(st.replace(params_axes=None, flax_mutables_axes=None)))


def place(path):
    out = []
    for k in path:
        for f in ('key', 'name', 'idx'):
            if hasattr(k, f):
                out.append(str(getattr(k, f)))
                break
    return '/'.join(out)


def inplace(d, change):
    """Changes the leaves of a nested dictionary where they are."""
    for k, v in d.items():
        if isinstance(v, dict):
            inplace(v, change)
        else:
            d[k] = change(v)


OPS = ['dump', 'dump', 'edit', 'load', 'load', 'params', 'mutables', 'step', 'train', 'axes']


def runs(item):
    kinds, seed, num, length = item
    out = []
    for kind in kinds:
        for n in range(num):
            r = random.Random('%s %d %d' % (kind, seed, n))
            w = World(kind, r)
            ident = '%s, seed %d history %d' % (kind, seed, n)
            first = w.look()['states']
            ev = []
            for op in ['axes', 'train'] + [r.choice(OPS) for _ in range(length)] + ['axes']:
                e = w.do(op)
                if e:
                    ev.append(e)
            out.append(dict(id=ident, init=first, ev=ev, tree={'/'.join(p): q for p, q in w.tree.items()}))
    return out


def run(chk):
    for kinds, nm in (('{"train"}', 'train'), ('{"infer"}', 'infer')):
        st = tlc.check('TrainState', cfg(
            spec='Spec', constants=dict(Vals=Raw('{1, 2}'), MaxStates=3, MaxDicts=chk.n(1, 2), Kinds=Raw(kinds)),
            invariants=['RoundTrip', 'Constant'], properties=['Immutable', 'OneEffect']),
            allow_unused=('Init', 'Train'))
        chk.spec('TrainState ' + nm, st)
    kinds = list(optimizers()) + ['inference']
    num = chk.n(2, 24)
    items = [(kinds[i::16], chk.seed, num, chk.n(14, 24)) for i in range(16)]
    hist = []
    for h in pool.pmap(chk, 'harness.checks.c21', 'runs', items, procs=8, devices=1):
        hist += h or []
    reached, st = tlc.validate('TrainStateTrace', cfg(
        spec='TSpec', constants=dict(Vals=Raw('{}'), MaxStates=0, MaxDicts=0, Kinds=Raw('{}')),
        constraints=['Track'], postcondition='Report'), hist)
    chk.spec('TrainStateTrace', st)
    for h, n in zip(hist, reached):
        if n < len(h['ev']):
            e = h['ev'][n]
            before = h['ev'][n - 1] if n else dict(states=h['init'], dicts=[])
            chk.violation('%s: %s' % (h['id'], e['op']), '%s: operation %d: %s after %s' % (
                h['id'], n + 1, e, dict(states=before['states'], dicts=before['dicts'])), h)
    chk.validated(len(hist), hist[-1]['ev'][:3] if hist else None)
    chk.note(histories=len(hist), operations=sum(len(h['ev']) for h in hist), structures=len(kinds))
