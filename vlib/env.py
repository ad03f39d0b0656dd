"""Process set-up shared by every part of the framework: the code under test is imported from /repo's working tree,
caches go to a private scratch directory, nothing is written in /repo."""
import os
import sys
import tempfile
import shutil
import atexit

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
PYTHON = '/opt/venv/bin/python'


def scratch_dir(tag='w'):
    """a private scratch directory, removed when the process ends"""
    d = tempfile.mkdtemp(prefix='verif_%s_' % tag)
    atexit.register(shutil.rmtree, d, True)
    return d


def setup(scratch=None):
    """call before importing ieml"""
    import warnings
    import logging
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if scratch is None:
        scratch = os.environ.get('VERIF_SCRATCH') or scratch_dir()
    os.environ['XDG_CACHE_HOME'] = os.path.join(scratch, 'cache')
    os.environ['XDG_DATA_HOME'] = os.path.join(scratch, 'data')
    os.environ['HOME'] = os.path.join(scratch, 'home')
    os.environ['TQDM_DISABLE'] = '1'
    for k in ('XDG_CACHE_HOME', 'XDG_DATA_HOME', 'HOME'):
        os.makedirs(os.environ[k], exist_ok=True)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import ieml  # noqa
    import ieml.dictionary.script  # noqa
    f = os.path.abspath(ieml.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('ieml imported from %s, not from %s' % (f, REPO))
    return scratch


def add_solvers():
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
