"""Loads third-party libraries, puts the seams in place, then the library under test is imported."""

import importlib
import os
import sys
import warnings

THIRD = [
    'numpy', 'scipy', 'scipy.signal', 'scipy.linalg', 'scipy.optimize', 'scipy.spatial', 'scipy.io.wavfile',
    'scipy.interpolate', 'scipy.special', 'scipy.stats', 'scipy.fft', 'scipy.integrate', 'numba', 'tables', 'h5py',
    'traits.api', 'traits.trait_base', 'sklearn.linear_model', 'pylops', 'matplotlib', 'queue', 'concurrent.futures',
    'multiprocessing', 'logging', 'tempfile', 'warnings', 'threading', 'wave', 'socket', 'ssl',
]


def install(prop):
    warnings.simplefilter('ignore')
    for m in THIRD:
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    if hasattr(prop, 'seams'):
        prop.seams()
    if prop.library_locks:
        from . import sched

        sched.install_locks()


def after_import(scratch):
    import acoular

    os.makedirs(os.path.join(scratch, 'cache'), exist_ok=True)
    acoular.config.cache_dir = os.path.join(scratch, 'cache')
    acoular.config.td_dir = scratch


class Quiet:
    """Swallows the library's informational output."""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o
