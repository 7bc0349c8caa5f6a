"""Makes /repo's t5x importable in this sandbox.

airio, t5 and a complete jestimator are not installed here.  t5x only touches
them for type checks and re-exports, so inert stand-ins are registered, and
`t5x` is registered as a package without executing its __init__ (the repo's own
test command does the same).
"""
import importlib.util
import os
import sys
import types

REPO = os.environ.get('T5X_REPO', '/repo')


def setup(devices=None):
    sys.dont_write_bytecode = True
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ.setdefault('NO_GCE_CHECK', 'true')
    if devices:
        os.environ['XLA_FLAGS'] = (os.environ.get('XLA_FLAGS', '') +
                                   ' --xla_force_host_platform_device_count=%d' % devices)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if 't5x' not in sys.modules:
        path = os.path.join(REPO, 't5x')
        spec = importlib.util.spec_from_file_location(
            't5x', path + '/__init__.py', submodule_search_locations=[path])
        sys.modules['t5x'] = importlib.util.module_from_spec(spec)
    import jax
    import jax.experimental.pjit as pj
    if not hasattr(pj, 'PartitionSpec'):
        pj.PartitionSpec = jax.sharding.PartitionSpec
    if 'airio' not in sys.modules:
        airio = types.ModuleType('airio')
        core = types.ModuleType('airio.core')
        for n in ['AirIODatasetIterator', 'Task', 'Mixture', 'DatasetProviderBase']:
            setattr(core, n, type(n, (), {}))
        core.dataset_providers = types.ModuleType('airio.core.dataset_providers')
        airio.core = core
        sys.modules.update({'airio': airio, 'airio.core': core,
                            'airio.core.dataset_providers': core.dataset_providers})
    if 't5' not in sys.modules:
        t5 = types.ModuleType('t5')
        d = types.ModuleType('t5.data')
        d.get_default_vocabulary = lambda: None
        t5.data = d
        sys.modules.update({'t5': t5, 't5.data': d})
    from absl import logging
    logging.set_verbosity(logging.FATAL)
    import logging as pylog
    pylog.disable(pylog.CRITICAL)


def scan_shim():
    """flax's scan asks jax for a debug_info that this jax does not have."""
    import types
    import jax.api_util
    from flax.core import axes_scan
    if hasattr(jax.api_util, 'debug_info'):
        return
    jax.api_util.debug_info = lambda *a, **k: None
    lu = axes_scan.lu
    ns = types.SimpleNamespace(**{k: getattr(lu, k) for k in dir(lu) if not k.startswith('__')})
    ns.wrap_init = lambda f, params=None, debug_info=None: lu.wrap_init(f, params)
    axes_scan.lu = ns
