"""C27: Adafactor updates every parameter by its rule, whatever its layout.

Runs of the real optimizer over generated parameter trees, factorization rules
(by size, by name pattern, by logical axis names), options, learning rates and
gradients (with non-finite ones) are recorded step by step; TLC recomputes each
step in floating point of its own and validates the runs against
spec/Adafactor.tla.
"""
import concurrent.futures as cf
import math
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 1
STD = {'vocab': 'col', 'embed': 'row', 'mlp': 'col', 'heads': 'col', 'kv': 'col', 'joined_kv': 'col',
       'relpos_buckets': 'none', 'layers': 'batch', 'stack': 'batch', 'layer_norm_scale': 'none',
       'mlp_activations': 'col', 'q_wi_fused': 'col', 'o_wo_fused': 'col', 'kv_fused': 'col', 'multiquery_heads': 'col'}


def num(v):
    v = float(v)
    if v == 0:
        return [0, 0]
    if not math.isfinite(v):
        return [1, 0] if math.isnan(v) else [1, 1]
    m, e = math.frexp(v)
    m = round(m * 32768)
    if abs(m) == 32768:
        m, e = m // 2, e + 1
    return [m, e - 15]


def some(x, f=num):
    return [] if x is None else [f(x)]


def shape_of(r):
    rank = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])
    while True:
        s = [r.choice([1, 2, 2, 3, 4, 5]) for _ in range(rank)]
        if math.prod(s) <= 24:
            return s


def rule_for(r, n, whole=.8):
    """Kinds of the dimensions: rows and columns together, or neither."""
    while True:
        k = [r.choice(['row', 'col', 'batch', 'none']) for _ in range(n)]
        rc = 'row' in k and 'col' in k
        if ('row' in k) != ('col' in k):
            continue
        if rc or n < 2 or r.random() > whole:
            return k


def play(r, ident, name=None):
    """One run; name: a standard axis name and its partner, used by the first parameter."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from flax import traverse_util as tu
    from flax.core import freeze
    from t5x import adafactor as A
    FD = A.FactorDim
    DIM = {'row': FD.ROW, 'col': FD.COLUMN, 'batch': FD.BATCH, 'none': FD.NONE}
    by = r.choice(['off', 'size', 'names', 'names', 'map', 'map'])
    std = by == 'names' and r.random() < .4
    if name:
        by, std = 'names', True
    tree = {('w',): [2, 2, 2]} if name else {}
    while len(tree) < r.randint(1, 4):
        path = tuple(r.choice(['enc', 'dec', 'w', 'w_0', 'b', 'layer_0', 'mlp', '0']) for _ in range(r.choice([1, 2, 2, 3])))
        if any(q[:len(path)] == path or path[:len(q)] == q for q in tree):
            continue
        s = shape_of(r)
        if by == 'size' and len(s) > 2 and r.random() < .9:
            s = s[:2]
        tree[path] = s
    key = lambda p: '/'.join(p)
    names, axes, rules = {}, {}, []
    if by == 'names':
        pools = [] if std else ['n%d' % i for i in range(6)]
        for n in pools:
            names[n] = r.choice(['row', 'col', 'col', 'batch', 'none'])
        full = STD if std else names
        for p, s in tree.items():
            for _ in range(50):
                axes[p] = [r.choice(sorted(full)) for _ in s]
                k = [full[a] for a in axes[p]]
                if not ('row' in k and 'col' in k and 'none' in k) or r.random() < .08:
                    break
        if name:
            axes['w',] = list(name) + ['layers']
        elif r.random() < .04:
            p = r.choice(sorted(axes))
            axes[p] = axes[p][:-1] + ['unknown'] if axes[p] else axes[p]
    elif by == 'map':
        for p, s in tree.items():
            if r.random() < .9:
                i, j = sorted((r.randint(0, len(p)), r.randint(0, len(p))))
                pat = list(p) if r.random() < .6 else list(p[i:j])
                n = len(s) if r.random() < .97 else len(s) + 1
                to = r.choice(['dims'] * 4 + ['none', 'size'])
                if to == 'size' and len(s) > 2 and r.random() < .9:
                    to = 'dims'
                rules.append(dict(pat=pat, to=dict(kind=to, dims=rule_for(r, n))))
        # a pattern may also match longer parameters: keep those mostly of one rank
        r.shuffle(rules)
        found = lambda pat, p: any(list(p[k:k + len(pat)]) == pat for k in range(len(p) - len(pat) + 1))
        for _ in range(3):
            for p, s in tree.items():
                f = next((x for x in rules if found(x['pat'], p)), None)
                if (f is None or f['to']['kind'] == 'dims' and len(f['to']['dims']) != len(s)
                        or f['to']['kind'] == 'size' and len(s) > 2) and r.random() < .97:
                    rules.insert(0, dict(pat=list(p), to=dict(kind='dims', dims=rule_for(r, len(s)))))
        if r.random() < .7:
            rules.append(dict(pat=[], to=dict(kind='none', dims=[])))
    regex = lambda pat: '(^|/)' + '/'.join(pat) + '(/|$)' if pat else r'.*'
    exponent = r.choice(['1', '1/2', '4/5', '4/5'])
    sc = r.choice([True, True, False, 'map'])
    smap = [dict(pat=list(p[r.randint(0, len(p) - 1):]), to=dict(kind='on', on=r.random() < .5)) for p in tree if r.random() < .6]
    smap.append(dict(pat=[], to=dict(kind='on', on=r.random() < .5)))
    opt = dict(by=by, std=std, names=names or {'': ''}, map=rules, mindim=r.choice([1, 2, 3, 4, 128]), exponent=exponent,
               offset=r.choice([0, 0, 0, 3, 40]), beta=r.choice([None, None, .5, .875]), clip=r.choice([1., 1., .5, 2., None]),
               decay=r.choice([None, None, .25, .0625]), decayexp=r.choice([None, None, '1', '2', '1/2']),
               eps1=r.choice([2. ** -100, 2. ** -100, .25]), eps2=r.choice([2. ** -10, .125, 1.]),
               globalclip=r.choice([None, None, .5, 2., 100.]), maxscale=r.choice([None, None, .5, 1.5]),
               skipnan=r.random() < .4, scale=dict(by='map' if sc == 'map' else 'all', on=sc is True, map=smap))
    if by == 'off' and r.random() < .05:
        opt['map'] = [dict(pat=[], to=dict(kind='none', dims=[]))]
    half = {p: jnp.bfloat16 if r.random() < .15 else jnp.float32 for p in tree}
    mdtype = jnp.bfloat16 if r.random() < .25 else jnp.float32
    base = r.choice([.5, .25])
    wrap = freeze if r.random() < .5 else (lambda x: x)
    build = lambda f: wrap(tu.unflatten_dict({p: f(p, s) for p, s in tree.items()}))
    def mixed(t):
        q = list(flat(t).items())
        r.shuffle(q)
        return wrap(tu.unflatten_dict(dict(q)))
    flat = lambda t: tu.flatten_dict(t.unfreeze() if hasattr(t, 'unfreeze') else dict(t))
    spell = lambda k: r.choice([DIM[k], {'row': 'row', 'col': r.choice(['col', 'Column']), 'batch': 'BATCH',
                                         'none': r.choice(['none', 'unfactorized'])}[k]])

    def make():
        kw = {}
        if by == 'names' or by == 'off' and r.random() < .3:
            kw['logical_factor_rules'] = A.standard_logical_factor_rules() if std or by == 'off' else {
                n: spell(k) for n, k in names.items()}
        if opt['map'] or by == 'map':
            kw['factor_map'] = A.HParamMap(tuple((regex(x['pat']), dict(
                dims=tuple(DIM[k] for k in x['to']['dims']), none=None, size=A.HEURISTIC_RULE)[x['to']['kind']])
                for x in opt['map']))
        o = A.Adafactor(
            base, factored=by != 'off', beta1=opt['beta'], decay_rate={'1': 1., '1/2': .5, '4/5': .8}[exponent],
            multiply_by_parameter_scale=A.HParamMap(tuple((regex(x['pat']), x['to']['on']) for x in smap)) if sc == 'map' else sc,
            step_offset=opt['offset'], clipping_threshold=opt['clip'], weight_decay_rate=opt['decay'],
            min_dim_size_to_factor=opt['mindim'], epsilon1=opt['eps1'], epsilon2=opt['eps2'], dtype_momentum=mdtype,
            weight_decay_rate_lr_exponent={None: None, '1': 1., '2': 2., '1/2': .5}[opt['decayexp']],
            global_norm_clip_threshold=opt['globalclip'], max_parameter_scale=opt['maxscale'],
            skip_nan_updates=opt['skipnan'], **kw)
        if by == 'names':
            from jax.sharding import PartitionSpec as P
            o.set_param_axes(build(lambda p, s: P(*axes[p])))
        return o
    rng = np.random.default_rng(r.randrange(10 ** 9))
    start = {p: jnp.asarray(np.round(rng.normal(size=s) * r.choice([.3, 1, 2]) * 64) / 64, half[p]) for p, s in tree.items()}
    kind = lambda x: str(x.dtype)
    h = dict(id=ident + ' ' + str({key(p): (s, axes.get(p)) for p, s in tree.items()}),
             opt=dict(opt, **{k: some(opt[k]) for k in ('beta', 'clip', 'decay', 'globalclip', 'maxscale')},
                      decayexp=some(opt['decayexp'], str), eps1=num(opt['eps1']), eps2=num(opt['eps2'])),
             pars={key(p): dict(name=list(p), shape=s, axes=axes.get(p, [])) for p, s in tree.items()},
             start={key(p): [num(v) for v in np.asarray(x, np.float64).ravel()] for p, x in start.items()},
             kx={key(p): 1000 if half[p] == jnp.float32 else 50 for p in tree},
             km=1000 if mdtype == jnp.float32 else 100,
             ev=[])
    # a learning rate and momentum in half precision: the scale is computed in it
    if any(d != jnp.float32 for d in half.values()):
        h['km'] = 50
    ev = h['ev']

    def show(o):
        st, x = {}, {}
        for p, v in flat(o.target).items():
            x[key(p)] = [num(a) for a in np.asarray(v, np.float64).ravel()]
        for p, q in flat(o.state.param_states).items():
            g = lambda a: [num(b) for b in np.asarray(a, np.float64).ravel()]
            st[key(p)] = dict(vr=g(q.v_row), vc=g(q.v_col), v=g(q.v), m=g(q.m))
        return dict(x=x, st=st)

    def kinds(o):
        ps = flat(o.state.param_states)
        return {key(p): [kind(v)] + sorted({kind(a) for a in (ps[p].v_row, ps[p].v_col, ps[p].v)}) + [
            kind(ps[p].m) if opt['beta'] is not None else 'float32'] for p, v in flat(o.target).items()}
    h['kinds'] = {key(p): [str(jnp.dtype(half[p])), 'float32', str(jnp.dtype(mdtype)) if opt['beta'] is not None else 'float32']
                  for p in tree}
    try:
        od = make()
        o = od.create(build(lambda p, s: start[p]))
    except (ValueError, KeyError):
        ev.append(dict(op='create', refused=True))
        return h
    ev.append(dict(op='create', refused=False, **show(o)))
    fn = lambda opt_, g, kw: opt_.apply_gradient(g, **kw)
    if r.random() < .3:
        fn = jax.jit(fn)
    count = 0
    for i in range(r.randint(2, 4)):
        if exponent == '4/5' or r.random() < .25 or count < opt['offset']:
            count = opt['offset'] + (r.choice([0, 31, 31, 242]) if exponent == '4/5' else r.randint(0, 9))
            d = jax.tree.map(np.asarray, o.state_dict())
            d['state']['step'] = np.asarray(count, np.int32)
            o = make().create(build(lambda p, s: jnp.zeros(s, half[p]))).restore_state(d)
            ev.append(dict(op='move', step=count))
        size = r.choice([.02, .5, 1, 4])
        gs = {}
        for p, s in tree.items():
            a = np.round(rng.normal(size=s) * 256) / 256
            if r.random() < .3:
                a = np.where(rng.random(s) < .4, 0., a)
            if r.random() < .08:
                a = np.zeros(s)
            if r.random() < .08:
                a = np.where(rng.random(s) < .2, np.nan, a)
            # (half-precision gradients would be clipped in half precision)
            gs[p] = jnp.asarray(a * size, half[p] if r.random() < .7 and not opt['globalclip'] else jnp.float32)
        lr = r.choice([None, .5, .25, .125, .0625])
        if r.random() < .3:
            o = o.replace(state=o.state.replace(param_states=mixed(o.state.param_states)))
        g = build(lambda p, s: gs[p])
        o = fn(o, mixed(g) if r.random() < .3 else g, {} if lr is None else {'learning_rate': lr})
        count += 1
        seen = show(o)
        ev.append(dict(op='step', step=int(o.state.step), lr=num(base if lr is None else lr), kinds=kinds(o),
                       grads={key(p): [num(v) for v in np.asarray(g, np.float64).ravel()] for p, g in gs.items()}, **seen))
        ev.append(dict(op='sync', **seen))
    return h


def runs(item):
    seed, n = item
    std = [(n, p) for n in sorted(STD) for p in ('embed', 'heads')][seed % 100 * 4:][:4]
    return [play(random.Random('%d %d' % (seed, i)), 'seed %d run %d' % (seed, i), std[i] if i < len(std) else None)
            for i in range(n)]


def run(chk):
    st = tlc.check('AdafactorMC', cfg(
        spec='MSpec', constants=dict(MaxStep=2, Options=chk.n(2, 7), Grads=Raw(
            '{<<1, 2, -1, 3>>, <<0, 1, 2, 2>>, <<-3, 0, 0, 0>>}' if chk.thorough else '{<<1, 2, -1, 3>>, <<0, 1, 2, 2>>}')),
        invariants=['Alike', 'Bounded', 'Still', 'Against']))
    chk.spec('AdafactorMC', st)
    hist = []
    for h in pool.pmap(chk, 'harness.checks.c27', 'runs',
                       [(chk.seed * 100 + i, chk.n(25, 250)) for i in range(8)], procs=8, devices=1):
        hist += h or []
    c = cfg(spec='TSpec', constraints=['Track'], postcondition='Report')
    parts = [hist[i::8] for i in range(8)]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda p: tlc.validate('AdafactorTrace', c, p, heap='2g'), parts))
    chk.spec('AdafactorTrace', dict(transitions=sum(s['transitions'] for _, s in res), states=sum(s['states'] for _, s in res)))
    for part, (reached, _) in zip(parts, res):
        for h, n in zip(part, reached):
            if n < len(h['ev']):
                e = h['ev'][n]
                chk.violation('%s: event %d %s' % (h['id'], n + 1, e['op']),
                              '%s: event %d (%s) does not follow: options %s' % (h['id'], n + 1, e['op'], h['opt']), h)
    chk.validated(len(hist), hist[0])
    chk.note(runs=len(hist), refused=sum(h['ev'][0]['refused'] for h in hist),
             steps=sum(e['op'] == 'step' for h in hist for e in h['ev']))
