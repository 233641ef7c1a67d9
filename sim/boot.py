"""Start-up of the simulated process: builds the I/O seam, re-executes the interpreter inside it and
imports kinisi from /repo's working tree (always from source, never from a cached .pyc)."""
import hashlib
import importlib.abc
import importlib.machinery
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KINISI_SIM_REPO', '/repo')
PY = '/opt/venv/bin/python'


def build_seam():
    src = os.path.join(VERIF, 'sim', 'simio.c')
    digest = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', f'simio-{digest}.so')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = f'{out}.{os.getpid()}'
        subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp, src, '-ldl', '-lpthread'], check=True)
        os.replace(tmp, out)
    return out


def enter(argv):
    """Re-execute under the seam unless already inside it."""
    so = build_seam()
    want = {
        'LD_PRELOAD': so,
        'PYTHONHASHSEED': os.environ.get('KINISI_SIM_HASHSEED', '0'),
        'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1',
        'PYTHONDONTWRITEBYTECODE': '1',
        'MPLBACKEND': 'Agg',
        'KINISI_SIM_INSIDE': so,
        'TQDM_DISABLE': '',
    }
    if os.environ.get('KINISI_SIM_INSIDE') == so and os.environ.get('LD_PRELOAD') == so:
        return
    env = dict(os.environ)
    env.pop('PYTHONPATH', None)
    env.pop('TQDM_DISABLE', None)
    want.pop('TQDM_DISABLE')
    env.update(want)
    os.execve(PY, [PY, '-B'] + argv, env)


class _Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):

    def find_spec(self, name, path=None, target=None):
        if name != 'kinisi' and not name.startswith('kinisi.'):
            return None
        parts = name.split('.')
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f),
                                                          submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None


def load_code():
    import importlib.util  # noqa: F401
    import threading
    sys.meta_path.insert(0, _Finder())
    from . import sched
    sched.patch_locks(REPO)
    import numpy, scipy.stats, h5py, tqdm, emcee, uravu, sklearn.utils, statsmodels.stats.correlation_tools  # noqa
    import ase, ase.io, pymatgen.core, pymatgen.io.vasp, MDAnalysis  # noqa
    import MDAnalysis.coordinates.memory  # noqa
    tqdm.tqdm.monitor_interval = 0
    sched.PHIL = h5py._objects.phil
    import kinisi
    import kinisi.analyze
    import kinisi.analyzer
    import kinisi.arrhenius
    import kinisi.diffusion
    import kinisi.parser
    assert list(kinisi.__path__) == [os.path.join(REPO, 'kinisi')], kinisi.__path__
    assert threading.active_count() == 1
