"""Planted bugs for C22."""
G = 't5x/disable_gc_during_import.py'
DEMO = """
import boot; boot.setup()
import gc
from t5x import disable_gc_during_import as G
%s
"""
SEEDS = [
    dict(id='c22-failed-import', property='C22',
         edits=[(G, "  gc.disable()\n  try:\n    yield\n  finally:\n    # We know that the original state was enabled because\n    # we didn't return above.\n    gc.enable()\n",
                 "  gc.disable()\n  yield\n  # We know that the original state was enabled because\n  # we didn't return above.\n  gc.enable()\n")],
         needs='an import that fails (e.g., an optional dependency)',
         breaks='Garbage collection stays off for the rest of the job.',
         demo=DEMO % """try:
    with G.disabled_gc():
        raise ImportError
except ImportError:
    pass
assert gc.isenabled()"""),
    dict(id='c22-remembered-once', property='C22',
         edits=[(G, "    # GC is already disabled; don't make any changes.\n    yield\n    return\n",
                 "    # GC is already disabled; keep it like that.\n    try:\n      yield\n    finally:\n      gc.disable()\n    return\n"),
                (G, "    gc.enable()\n", "    gc.enable() if not gc.isenabled() else None\n")],
         needs='nothing else', breaks='x', demo=DEMO % "assert 1"),
    dict(id='c22-import-error-inner', property='C22',
         edits=[(G, "  with disabled_gc():\n    return _original_importlib_import(*args, **kwargs)\n",
                 "  if not gc.isenabled():\n    return _original_importlib_import(*args, **kwargs)\n  with disabled_gc():\n    try:\n      return _original_importlib_import(*args, **kwargs)\n    except ImportError:\n      gc.enable()\n      return _original_importlib_import(*args, **kwargs)\n")],
         needs='an import that fails at first',
         breaks='A failing import is run again with garbage collection on.',
         demo=DEMO % """import os, sys, builtins, importlib.util
LOG = []
class F:
    def find_spec(self, name, path=None, target=None):
        if name == 'failing_mod': return importlib.util.spec_from_loader(name, self)
    def create_module(self, spec): return None
    def exec_module(self, m):
        LOG.append(gc.isenabled()); raise ImportError
sys.meta_path.insert(0, F())
os.environ['EXPERIMENTAL_DISABLE_GC_DURING_IMPORT'] = '1'
G.try_disable_gc_during_import()
try:
    import failing_mod
except ImportError: pass
assert not any(LOG), LOG"""),
]
SEEDS = [s for s in SEEDS if s['breaks'] != 'x']
