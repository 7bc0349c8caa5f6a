"""C22: imports with garbage collection off restore the previous setting.

Generated nests of modules and regions, which switch collection on and off and
fail at random places, are executed by the real code in a process of their own;
TLC validates every history against spec/GcGuard.tla.
"""
import json
import os
import random
import subprocess
import sys
import textwrap

from harness import tlc
from harness.env import REPO
from harness.tlc import cfg

CHILD = r'''
import builtins, gc, importlib.util, json, os, sys, types
path, root = sys.argv[1:3]
spec = importlib.util.spec_from_file_location('disable_gc_during_import', path)
G = importlib.util.module_from_spec(spec)
spec.loader.exec_module(G)
sys.dont_write_bytecode = True
sys.path.insert(0, root)
ORIG = builtins.__import__
LOG = []
class Fail(ImportError):
    pass
def log(e, **kw):
    LOG.append(dict(e=e, on=gc.isenabled(), **kw))
class Finder:
    """Modules g<n>, whose bodies run the n-th list of operations."""
    def find_spec(self, name, path=None, target=None):
        if name.startswith('gcmod_'):
            return importlib.util.spec_from_loader(name, self)
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        log('import')
        ops(MODS[module.__name__])
sys.meta_path.insert(0, Finder())
MODS = {}
COUNT = [0]
def ops(todo):
    for op, arg in todo:
        if op == 'enable':
            gc.enable(); log('enable')
        elif op == 'disable':
            gc.disable(); log('disable')
        elif op == 'install':
            os.environ.pop('EXPERIMENTAL_DISABLE_GC_DURING_IMPORT', None)
            if arg:
                os.environ['EXPERIMENTAL_DISABLE_GC_DURING_IMPORT'] = 'true'
            G.try_disable_gc_during_import(); log('install', wanted=bool(arg))
        elif op == 'fail':
            raise Fail()
        elif op == 'import':
            COUNT[0] += 1
            name = 'gcmod_%d' % COUNT[0]
            MODS[name] = arg['body']
            try:
                exec('import ' + name, {})
            except Fail:
                log('leave')
                if not arg['catch']:
                    raise
            else:
                log('leave')
        elif op == 'region':
            try:
                with G.disabled_gc():
                    log('region')
                    ops(arg['body'])
            except Fail:
                log('leave')
                if not arg['catch']:
                    raise
            else:
                log('leave')
out = []
for plan in json.load(sys.stdin):
    del LOG[:]
    builtins.__import__ = ORIG
    os.environ.pop('EXPERIMENTAL_DISABLE_GC_DURING_IMPORT', None)
    if plan['guard']:
        os.environ['EXPERIMENTAL_DISABLE_GC_DURING_IMPORT'] = '1'
        G.try_disable_gc_during_import()
    (gc.enable if plan['on'] else gc.disable)()
    try:
        ops(plan['ops'])
    except Fail:
        pass
    out.append(list(LOG))
    gc.enable()
builtins.__import__ = ORIG
json.dump(out, sys.stdout)
'''


def plan(r, depth=0):
    out = []
    for _ in range(r.randint(0 if depth else 1, 4)):
        op = r.choice(['import', 'import', 'region', 'enable', 'disable', 'fail', 'install'])
        if op in ('import', 'region'):
            if depth > 4:
                continue
            out.append((op, dict(body=plan(r, depth + 1), catch=r.random() < 0.6)))
        elif op == 'install':
            if r.random() < 0.3:
                out.append((op, r.random() < 0.7))
        elif op == 'fail':
            if r.random() < 0.5 and depth:
                out.append((op, 0))
        elif r.random() < 0.5:
            out.append((op, 0))
    return out


def run(chk):
    st = tlc.check('GcGuard', cfg(spec='Spec', constants=dict(MaxDepth=chk.n(5, 9)),
                                  invariants=['Off'], properties=['Restored', 'Untouched']))
    chk.spec('GcGuard', st)
    r = random.Random(chk.seed)
    plans = [dict(ops=plan(r), on=r.random() < 0.7, guard=r.random() < 0.7) for _ in range(chk.n(600, 12000))]
    p = subprocess.run([sys.executable, '-c', textwrap.dedent(CHILD),
                        os.path.join(REPO, 't5x', 'disable_gc_during_import.py'), "/nonexistent"],
                       input=json.dumps(plans), capture_output=True, text=True, timeout=600)
    if p.returncode:
        chk.violation('guarded imports', 'the guard raised: %s' % p.stderr[-1500:], p.stderr)
        return
    hist = [dict(ev=ev, on=pl['on'], guard=pl['guard'], id='plan %d: gc %s, guard %s, %s' % (
        k, pl['on'], pl['guard'], pl['ops'])) for k, (pl, ev) in enumerate(zip(plans, json.loads(p.stdout))) if ev]
    reached, st = tlc.validate('GcGuardTrace', cfg(
        spec='TSpec', constants=dict(MaxDepth=99), constraints=['Track'], postcondition='Report'), hist)
    chk.spec('GcGuardTrace', st)
    for h, n in zip(hist, reached):
        if n < len(h['ev']):
            chk.violation(h['id'][:200], 'event %d of %s' % (n + 1, h['ev']), h)
    chk.validated(len(hist), hist[0])
    chk.note(events=sum(len(h['ev']) for h in hist))
