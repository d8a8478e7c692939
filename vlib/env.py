"""
Scratch environment for driving nimble: nothing nimble writes (its
configuration file, its log database) may land outside a directory the check
creates and removes itself.
"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None
_owner = None


def scratch():
    """The scratch directory of this run (created on first use)."""
    global _scratch, _owner
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='nimble-verif-')
        _owner = os.getpid()
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _scratch and os.getpid() == _owner and os.path.isdir(_scratch):
        os.chdir('/')
        shutil.rmtree(_scratch, ignore_errors=True)


def setup():
    """Point HOME/cwd at scratch, import nimble from the repository under
    test and turn its logging off. Returns the nimble module."""
    base = scratch()
    home = os.path.join(base, 'home')
    work = os.path.join(base, 'work')
    os.makedirs(home, exist_ok=True)
    os.makedirs(work, exist_ok=True)
    os.environ['HOME'] = home
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ.pop('NIMBLE_CONFIG', None)
    for var in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
                'NUMEXPR_NUM_THREADS'):
        os.environ[var] = '1'
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
    os.chdir(work)
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    import nimble
    where = os.path.abspath(os.path.dirname(nimble.__file__))
    if where != os.path.join(REPO, 'nimble'):
        raise RuntimeError('nimble was imported from ' + where)
    nimble.settings.set('logger', 'location', os.path.join(base, 'log'))
    nimble.settings.set('logger', 'enabledByDefault', 'False')
    nimble.settings.set('logger', 'enableCrossValidationDeepLogging', 'False')
    return nimble
