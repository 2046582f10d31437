"""Closes the system: imports the code under test from /repo/src with every source of
nondeterminism the harness must own replaced by a seam.

 * worker pools        -> FakePool: tasks run in this process, one at a time, arguments and results
                          pickled (as a real pool does), completion order chosen by ENV.order
 * directory listings  -> os.listdir / os.scandir in an order chosen by ENV.list_order
 * progress bars, console output -> silenced
 * scratch space       -> a private directory under /dev/shm (or /tmp), removed at exit

Nothing in here names a function of the code under test: refactorings stay invisible.
"""
import atexit
import multiprocessing
import os
import pickle
import shutil
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

os.environ['TQDM_DISABLE'] = '1'
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'
if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)


class Env:
    """Mutable knobs of the seams."""
    order = None        # callable(n) -> permutation of range(n): worker completion order
    list_order = None   # callable(list_of_names) -> reordered list
    pool_calls = 0
    pool_sizes = []
    pools = []          # every pool made
    task_hook = None    # callable(func, args): called before each task (fault injection)
    scheduler = None    # callable(n, run) -> [(i, run(i))...] in order of completion: runs all tasks of a pool call

    def reset(self):
        self.scheduler = None
        self.order = None
        self.list_order = None
        self.pool_calls = 0
        self.pool_sizes = []
        self.pools = []
        self.task_hook = None


ENV = Env()
REAL_POOL = multiprocessing.Pool
REAL_LISTDIR = os.listdir
REAL_SCANDIR = os.scandir


class _Res:
    def __init__(self, value=None, err=None):
        self._v, self._e = value, err

    def get(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._e is None


def _iso(x):
    return pickle.loads(pickle.dumps(x))


def _iso_exc(err):
    """What a real pool does with a worker's exception: it travels pickled."""
    try:
        return pickle.loads(pickle.dumps(err))
    except Exception as exc:  # noqa
        from multiprocessing.pool import MaybeEncodingError
        return MaybeEncodingError(exc, err)


class FakePool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self._processes = processes or 1
        self._closed = False
        ENV.pools.append(self)
        if initializer:
            initializer(*initargs)

    def _check(self):
        if self._closed:
            raise ValueError('Pool not running')

    def _run(self, func, args, kwds=None):
        if ENV.task_hook:
            ENV.task_hook(func, args)
        try:
            return True, _iso(func(*_iso(args), **(kwds or {})))
        except Exception as err:
            return False, _iso_exc(err)

    def _perm(self, n):
        ENV.pool_calls += 1
        ENV.pool_sizes.append(n)
        if ENV.order is None:
            return range(n)
        return ENV.order(n)

    # Execution order equals completion order: with one worker per pending task any permutation of
    # completions is reachable, and running the tasks in that order is one of its schedules.
    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        items = list(iterable)
        if ENV.scheduler is not None:
            done = self._scheduled(func, [(x,) for x in items])

            def ready():
                for _, (ok, val) in done:
                    if not ok:
                        raise val
                    yield val
            return ready()
        perm = list(self._perm(len(items)))

        def gen():
            for i in perm:
                ok, val = self._run(func, (items[i],))
                if not ok:
                    # the real pool has the other tasks already queued: they run on
                    raise val
                yield val
        return gen()

    def _scheduled(self, func, argslist):
        ENV.pool_calls += 1
        ENV.pool_sizes.append(len(argslist))
        return ENV.scheduler(len(argslist), lambda i: self._run(func, argslist[i]))

    def _all(self, func, argslist):
        items = list(argslist)
        if ENV.scheduler is not None:
            return [x for _, x in sorted(self._scheduled(func, items), key=lambda x: x[0])]
        perm = list(self._perm(len(items)))
        out = [None] * len(items)
        for i in perm:
            out[i] = self._run(func, items[i])
        return out

    def imap(self, func, iterable, chunksize=1):
        self._check()
        res = self._all(func, [(x,) for x in iterable])

        def gen():
            for ok, val in res:
                if not ok:
                    raise val
                yield val
        return gen()

    def map(self, func, iterable, chunksize=None):
        self._check()
        return list(self.imap(func, iterable))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        try:
            val = self.map(func, iterable)
        except Exception as err:
            if error_callback:
                error_callback(err)
            return _Res(err=err)
        if callback:
            callback(val)
        return _Res(val)

    def starmap(self, func, iterable, chunksize=None):
        self._check()
        out = []
        for ok, val in self._all(func, [tuple(x) for x in iterable]):
            if not ok:
                raise val
            out.append(val)
        return out

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        try:
            return _Res(self.starmap(func, iterable))
        except Exception as err:
            return _Res(err=err)

    def apply(self, func, args=(), kwds=None):
        self._check()
        ok, val = self._run(func, args, kwds)
        if not ok:
            raise val
        return val

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        self._check()
        ok, val = self._run(func, args, kwds)
        if ok:
            if callback:
                callback(val)
            return _Res(val)
        if error_callback:
            error_callback(val)
        return _Res(err=val)

    def close(self):
        self._closed = True

    def terminate(self):
        self._closed = True

    def join(self):
        if not self._closed:
            raise ValueError('Pool is still running')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def _listdir(path='.'):
    names = REAL_LISTDIR(path)
    names.sort()
    if ENV.list_order is not None:
        names = ENV.list_order(names)
    return names


class _Scan:
    def __init__(self, path):
        with REAL_SCANDIR(path) as it:
            entries = sorted(it, key=lambda e: e.name)
        if ENV.list_order is not None:
            by = {e.name: e for e in entries}
            entries = [by[n] for n in ENV.list_order([e.name for e in entries])]
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _scandir(path='.'):
    if isinstance(path, int):
        return REAL_SCANDIR(path)
    return _Scan(path)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    multiprocessing.Pool = FakePool
    multiprocessing.pool.Pool = FakePool
    os.listdir = _listdir
    os.scandir = _scandir
    import warnings
    warnings.simplefilter('ignore')


import multiprocessing.pool  # noqa: E402

_scratch = None


def scratch():
    """Private scratch directory of this process tree."""
    global _scratch
    if _scratch is None:
        base = '/tmp'
        try:
            st = os.statvfs('/dev/shm')
            if st.f_bavail * st.f_frsize > (2 << 30) and os.access('/dev/shm', os.W_OK):
                base = '/dev/shm'
        except OSError:
            pass
        _scratch = tempfile.mkdtemp(prefix='v8mc-', dir=base)
        owner = os.getpid()

        def _clean(path=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(_clean)
    return _scratch


def worker_scratch(name):
    """Directory of one worker; tempfile goes there too."""
    path = os.path.join(scratch(), name)
    os.makedirs(path, exist_ok=True)
    tmp = os.path.join(path, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    os.environ['TMPDIR'] = tmp
    return path


_wdir = None


def scratch_dir():
    """the current worker's directory"""
    return _wdir or worker_scratch('main')


_ws = worker_scratch


def worker_scratch(name):  # noqa: F811
    global _wdir
    _wdir = _ws(name)
    return _wdir


_NOBODY = 65534


def _can_work_as_nobody():
    """Probe in a child: with nobody's rights, is everything we need still readable?"""
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.setgroups([])
            os.setgid(_NOBODY)
            os.setuid(_NOBODY)
            for top in (SRC, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))):
                os.listdir(top)
            with open(os.path.join(SRC, 'v8unpack', 'v8unpack.py'), 'rb'):
                rc = 0
        except BaseException:  # noqa
            rc = 1
        os._exit(rc)
    return os.waitpid(pid, 0)[1] == 0


def drop_privileges():
    """The code under test clears and overwrites directories: run it as an unprivileged user that can
    only write into this worker's scratch directory (so an escaped deletion reaches nothing real)."""
    if os.getuid() != 0 or os.environ.get('VERIF_ROOT') or not _can_work_as_nobody():
        return
    for root, dirs, files in os.walk(scratch_dir()):
        os.chown(root, _NOBODY, _NOBODY)
        for f in files:
            os.chown(os.path.join(root, f), _NOBODY, _NOBODY)
    os.chmod(scratch(), 0o755)
    os.setgroups([])
    os.setgid(_NOBODY)
    os.setuid(_NOBODY)
