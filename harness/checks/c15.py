"""C15: logical axes map by first applicable rule, never sharing a mesh axis.

Trees of parameters with axis names, rule lists, overrides and standard rules go
through the real code; TLC judges the answers (spec/AxisRules.tla).
"""
import random
import re

from harness import pool, tlc
from harness.tlc import cfg

NAMES = ['batch', 'embed', 'mlp', 'heads', 'kv', 'other']
AXES = ['data', 'model', 'replica', 'x']


def spec_of(s):
    return [list(a) if isinstance(a, (tuple, list)) else [a] if a is not None else [] for a in s]


def tree(r, depth=0):
    """A nested dict of ranks."""
    out = {}
    for k in r.sample(['a', 'b', 'wi', 'wi_0', 'wo', 'layers_0', 'layers_1', 'kernel', 'scale', 'embed'], r.randint(1, 3)):
        out[k] = tree(r, depth + 1) if depth < 2 and r.random() < .4 else r.randint(0, 3)
    return out


def flat(t, pre=()):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from flat(v, pre + (k,))
        else:
            yield pre + (k,), v


def variables(r, t, named, twice):
    """Model variables: parameters, and their axes for those that are named."""
    import jax
    import jax.numpy as jnp
    from flax import traverse_util
    from flax.linen import partitioning as fp
    params, axes, info = {}, {}, []
    for path, rank in flat(t):
        params[path] = jax.ShapeDtypeStruct((2,) * rank, jnp.float32)
        names = r.sample(NAMES, rank)
        names = ['' if r.random() < .15 else n for n in names]
        if twice and rank > 1 and r.random() < .3:
            names[1] = names[0]
        there = r.random() < named
        if there:
            axes[path[:-1] + (path[-1] + '_axes',)] = fp.AxisMetadata(names=tuple(n or None for n in names))
        info.append(dict(path=path, rank=rank, names=names if there else [], there=there))
    return traverse_util.unflatten_dict(params), traverse_util.unflatten_dict(axes), info


def rules_for(r):
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        to = r.choice([None, None] + AXES * 2 + [('replica', 'data'), ('model', 'x'), ('data', 'model')])
        out.append((r.choice(NAMES), to))
    return out


def mesh_case(r):
    import flax
    from flax import traverse_util
    from t5x import optimizers, partitioning, train_state
    rules = rules_for(r)
    t = tree(r)
    twice = r.random() < .15
    params, axes, info = variables(r, t, 1, twice)
    muts, mut_axes, mut_info = ({}, {}, [])
    if r.random() < .3:
        muts, mut_axes, mut_info = variables(r, dict(state=r.randint(0, 2), deep=dict(count=r.randint(0, 2))), 1, False)
    slices = r.random() < .25
    kw = dict(ici_mesh_shape=(1, 1, 1), dcn_mesh_shape=(1, 1, 1)) if slices else {}
    vs = dict(params=params, params_axes=axes)
    if muts:
        vs.update(moving=muts, moving_axes=mut_axes)
    vs = flax.core.freeze(vs)
    infer = r.random() < .5
    form = r.choice([list, tuple, iter])
    told = [dict(name=n, to=spec_of([('replica', 'data') if slices and n == 'batch' else to])[0]) for n, to in rules]
    every = info + [dict(i, path=('moving',) + i['path'], mutable=True) for i in mut_info]
    c = dict(kind='mesh', rules=told, raised=False, paths=True, params=[
        dict(names=i['names'], named=True, isspec=False, spec=[]) for i in every], what=str((rules, info, infer, slices)))
    try:
        p = partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=form(rules), **kw)
        if infer:
            st = train_state.InferenceState.create(vs)
            got = p.get_mesh_axes(st)
        else:
            st = train_state.FlaxOptimTrainState.create(optimizers.sgd(.1), vs)
            got = p.get_mesh_axes(st)
    except ValueError:
        return dict(c, raised=True)
    par, mut = flax.core.unfreeze(got.params), flax.core.unfreeze(got.flax_mutables)
    is_spec = lambda v: isinstance(v, partitioning.PartitionSpec)
    fp = {k: v for k, v in leaves(par, is_spec)}
    fm = {('moving',) + k[1:]: v for k, v in leaves(mut, is_spec)} if mut_info else {}
    c['paths'] = set(fp) == {i['path'] for i in info} and set(fm) == {('moving',) + i['path'] for i in mut_info} and \
        all(k[0] == 'moving' for k, _ in leaves(mut, is_spec))
    for d, i in zip(c['params'], every):
        v = (fm if i.get('mutable') else fp).get(i['path'])
        if is_spec(v):
            d.update(isspec=True, spec=spec_of(v) + [[]] * (i['rank'] - len(v)))
    return c


def leaves(t, is_leaf, pre=()):
    if isinstance(t, dict) and not is_leaf(t):
        for k, v in t.items():
            yield from leaves(v, is_leaf, pre + (k,))
    else:
        yield pre, t


def override_case(r):
    import flax
    from flax import traverse_util
    from t5x import utils
    t = tree(r)
    params, axes, info = variables(r, t, .8, False)
    noaxes = r.random() < .05
    pats = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        i = r.choice(info)
        path = '/'.join(i['path'])
        cut = path.split('/')
        pat = r.choice([path, '.*/' + cut[-1], cut[-1], cut[0], cut[0] + '/.*', path + 'x', path[:-1], '.*', r'(wi|wo).*',
                        '.*' + cut[-1][-2:], path[:-1] + '.', re.escape(path) + '$', '/'.join(cut[1:]) or 'zz', r'[^/]+'])
        rank = i['rank'] if r.random() < .9 else r.randint(0, 3)
        pats.append((pat, tuple(r.sample(NAMES + ['new', 'newer'], rank))))
    vs = dict(params=params, other=dict(z=1))
    if not noaxes:
        vs['params_axes'] = axes
    vs = flax.core.freeze(vs)
    c = dict(kind='override', noaxes=noaxes, patterns=[list(n) for _, n in pats], raised=False, rest=True, after=[],
             params=[dict(names=i['names'], there=i['there'], rank=i['rank'],
                          matches=[k + 1 for k, (p, _) in enumerate(pats) if re.fullmatch(p, '/'.join(i['path']))]) for i in info],
             what=str((pats, info)))
    before = str(vs)
    try:
        got = utils.override_params_axes_names(vs, r.choice([list, tuple])(pats))
    except ValueError:
        return dict(c, raised=True)
    got = flax.core.unfreeze(got)
    fa = traverse_util.flatten_dict(got.get('params_axes', {}))
    want = {i['path'][:-1] + (i['path'][-1] + '_axes',) for i in info}
    c['rest'] = str(vs) == before and got['other'] == dict(z=1) and set(fa) <= want and \
        flax.core.unfreeze(vs)['params'] == got['params'] and set(got) == set(vs) | {'params_axes'}
    for i in info:
        v = fa.get(i['path'][:-1] + (i['path'][-1] + '_axes',))
        c['after'].append(dict(there=v is not None, names=[n or '' for n in v.names] if v is not None else []))
    return c


STD = ['batch', 'vocab', 'embed', 'mlp', 'heads', 'kv', 'joined_kv', 'relpos_buckets', 'abspos_buckets', 'length', 'layers',
       'stack', 'mlp_activations']


def standard_case(r):
    import flax
    import jax
    import jax.numpy as jnp
    from flax.linen import partitioning as fp
    from t5x import partitioning, train_state
    while True:
        names = r.sample(STD, r.randint(1, 4))
        if sum(n in ('vocab', 'mlp', 'heads', 'joined_kv') for n in names) <= 1:
            break
    act, par = r.choice([1, 2]), r.choice([1, 2])
    if r.random() < .05:
        act = r.choice([0, 3])
    extra = [(r.choice(STD + ['mine']), r.choice(['data', 'model', None])) for _ in range(r.choice([0, 0, 1, 3]))]
    # standard rules come first; extra ones only matter where those leave a dimension open
    extra = [(n, a) for n, a in extra if n != 'embed']
    c = dict(kind='standard', act=act, par=par, names=names, raised=False, spec=[], what=str(extra))
    try:
        rules = partitioning.standard_logical_axis_rules(act, par, additional_rules=extra or None)
        p = partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=rules)
        st = train_state.InferenceState.create(flax.core.freeze(dict(
            params=dict(k=jax.ShapeDtypeStruct((2,) * len(names), jnp.float32)),
            params_axes=dict(k_axes=fp.AxisMetadata(names=tuple(names))))))
        c['spec'] = spec_of(p.get_mesh_axes(st).params['k'])
    except ValueError:
        c['raised'] = True
    return c


def cases(item):
    seed, part, num = item
    r = random.Random('c15 %d %d' % (seed, part))
    return [r.choice([mesh_case, mesh_case, override_case, standard_case])(r) for _ in range(num)]


def run(chk):
    st = tlc.check('AxisRulesMC', cfg(spec='Spec', constants=dict(Names=tlc.Raw('{"p", "q"}'), Axes=tlc.Raw('{"x", "y"}'),
                                                                  MaxRules=chk.n(3, 4), MaxDims=3),
                                      invariants=['Apart', 'FirstOne', 'Same'], properties=['Stays'], deadlock=False))
    chk.spec('AxisRulesMC', st)
    allc = []
    for c in pool.pmap(chk, 'harness.checks.c15', 'cases', [(chk.seed, i, chk.n(800, 8000)) for i in range(8)], procs=8):
        allc += c or []
    bad, n = tlc.judge('AxisRules', allc, op='Ok')
    for b in bad:
        chk.violation('case', str(allc[b])[:1500], allc[b])
    chk.validated(n, allc[-1] if allc else None)
    chk.note(kinds={k: sum(c['kind'] == k for c in allc) for k in ('mesh', 'override', 'standard')},
             raised=sum(c['raised'] for c in allc))
