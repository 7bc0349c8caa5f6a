"""Makes the t5x of the current directory importable with inert stand-ins."""
import importlib.util
import os
import sys
import types
import logging as _pl

sys.dont_write_bytecode = True
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ['CUDA_VISIBLE_DEVICES'] = ''


def setup(devices=None):
    repo = os.getcwd()
    if devices:
        os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=%d' % devices
    sys.path.insert(0, repo)
    p = os.path.join(repo, 't5x')
    spec = importlib.util.spec_from_file_location('t5x', p + '/__init__.py',
                                                  submodule_search_locations=[p])
    sys.modules['t5x'] = importlib.util.module_from_spec(spec)
    import jax
    import jax.experimental.pjit as pj
    if not hasattr(pj, 'PartitionSpec'):
        pj.PartitionSpec = jax.sharding.PartitionSpec
    a, c = types.ModuleType('airio'), types.ModuleType('airio.core')
    for n in ['AirIODatasetIterator', 'Task', 'Mixture', 'DatasetProviderBase']:
        setattr(c, n, type(n, (), {}))
    c.dataset_providers = types.ModuleType('airio.core.dataset_providers')
    a.core = c
    t5, d = types.ModuleType('t5'), types.ModuleType('t5.data')
    d.get_default_vocabulary = lambda: None
    t5.data = d
    sys.modules.update({'airio': a, 'airio.core': c,
                        'airio.core.dataset_providers': c.dataset_providers,
                        't5': t5, 't5.data': d})
    from absl import logging
    logging.set_verbosity(logging.FATAL)
    _pl.disable(_pl.CRITICAL)
