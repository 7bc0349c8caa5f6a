"""Runs a function of a check over items in several fresh processes."""
import importlib
import multiprocessing as mp
import os
import traceback


def _init(devices, q):
    del q
    from harness import env
    env.setup(devices=devices)


def _call(job):
    mod, fn, item = job
    from harness import common
    try:
        return ('ok', getattr(importlib.import_module(mod), fn)(item))
    except Exception as e:  # pylint: disable=broad-except
        # The harness observes what the code under test returned, so an exception
        # outside that code means an observation of a shape that cannot be right.
        env = isinstance(e, (MemoryError, KeyboardInterrupt)) or type(e).__name__ in (
            'TlcError', 'BrokenProcessPool') or (isinstance(e, OSError) and not common.from_repo(e))
        return ('exc', not env, '%s: %s' % (type(e).__name__, str(e)[:300]),
                common.short_tb(e))


class WorkerError(RuntimeError):
    pass


def pmap(chk, mod, fn, items, procs=6, devices=None, chunksize=1):
    """[fn(item)] in order; exceptions raised inside the code under test become
    violations of chk (and a None result), others are raised here."""
    items = list(items)
    if not items:
        return []
    os.environ['OMP_NUM_THREADS'] = '2'
    ctx = mp.get_context('spawn')
    out = []
    with ctx.Pool(min(procs, len(items)), _init, (devices, None)) as p:
        for it, r in zip(items, p.imap(_call, [(mod, fn, i) for i in items], chunksize)):
            if r[0] == 'ok':
                out.append(r[1])
            elif r[1]:
                chk.violation('exception', '%s on %s' % (r[2], repr(it)[:300]), r[3])
                out.append(None)
            else:
                raise WorkerError(r[3])
    return out
