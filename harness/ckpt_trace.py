"""Validation of recorded checkpoint histories with CkptTrace.tla."""
from harness import tlc

CONSTS = {'Steps': tlc.Raw('{}'), 'Keep': 0, 'KeepDs': 0, 'Ordered': False}


def validate(chk, histories, name):
    """histories: list of {'ev','keep','keepds','mode','id'}."""
    for i in range(0, len(histories), 3000):
        part = histories[i:i + 3000]
        reached, st = tlc.validate(
            'CkptTrace',
            tlc.cfg(spec='TSpec', constants=CONSTS, constraints=['Track'],
                    postcondition='Report'), part)
        chk.spec(name, st)
        for h, r in zip(part, reached):
            if r < len(h['ev']):
                bad = h['ev'][r]
                chk.violation(
                    '%s' % h['id'],
                    'after %d events the specification does not allow %s (before: %s)' % (
                        r, short(bad), [short(x) for x in h['ev'][max(0, r - 3):r]]),
                    {'history': h['ev'], 'rejected_at': r, 'keep': h['keep'],
                     'keepds': h['keepds'], 'extra': h.get('extra')})
        chk.validated(len(part), part[0] if part else None)


def short(e):
    e = dict(e)
    if e.get('st'):
        e['st'] = ['%d%s%s%s' % (r['s'], '' if r['ok'] else '!', '' if r['ds'] else '-ds',
                                 '*' if r['pin'] else '') for r in e['st']]
    else:
        e.pop('st', None)
    if e['e'] == 'vis':
        e.pop('s', None)
        e.setdefault('st', [])
    return e


def models(chk):
    """Exhaustive runs of the design-level specifications."""
    from harness.tlc import cfg, Raw
    for keep, kd in ((0, 0), (1, 0), (2, 1)):
        st = tlc.check('CkptStore', cfg(
            spec='Spec', constants={'Steps': Raw('0..3') if not chk.thorough else Raw('0..4'),
                                    'Keep': keep, 'KeepDs': kd, 'Ordered': True},
            invariants=['TypeOK', 'NewestComplete', 'NewestHasIterator'],
            properties=['Monotone', 'PinnedStay', 'GotWasComplete', 'StepsCovered',
                        'EndedPruned']))
        expect = {0: {'Damage', 'DropDs', 'Remove'}, 1: {'DropDs'}, 2: set()}[keep]
        if set(st['unused_actions']) != expect:
            raise RuntimeError('vacuous model: %s' % st)
        chk.spec('CkptStore keep=%d' % keep, st)


def save_models(chk):
    from harness.tlc import cfg, Raw
    for n in chk.n((2, 3), (2, 3, 4)):
        st = tlc.check('CkptSave', cfg(
            spec='Spec', constants={'N': n, 'Barriers': Raw('{1,2,3,4}'),
                                    'SaveSteps': Raw('<<1,2,3>>'), 'KeepN': 1,
                                    'MaxCrash': chk.n(1, 2)},
            invariants=['NewestComplete', 'SameSave'],
            properties=['RefinesVis', 'Ends', 'Quiet'] + (['Finishes'] if n == 2 else []),
            deadlock=True))
        chk.spec('CkptSave N=%d' % n, st)
    # the model can tell a missing barrier
    for missing in (1, 3):
        try:
            tlc.check('CkptSave', cfg(
                spec='Spec', constants={'N': 2, 'Barriers': Raw('{1,2,3,4} \\ {%d}' % missing),
                                        'SaveSteps': Raw('<<1,2>>'), 'KeepN': 1,
                                        'MaxCrash': 0}, invariants=['NewestComplete']))
        except tlc.TlcError as e:
            if 'NewestComplete is violated' not in str(e):
                raise
        else:
            raise RuntimeError('the model does not see a missing barrier')


def schedules(chk, n, num):
    """Host picks of behaviours generated by TLC from CkptSave."""
    from harness.tlc import cfg, Raw
    behs = tlc.simulate('CkptSave', cfg(
        spec='Spec', constants={'N': n, 'Barriers': Raw('{1,2,3,4}'),
                                'SaveSteps': Raw('<<1,2>>'), 'KeepN': 1, 'MaxCrash': 0}),
        num=num, depth=60, seed=chk.seed)
    return [[s['who'] - 1 for s in b if s['who'] > 0] for b in behs]
