"""Every file system operation of the code under test inside the scratch directory becomes a step the harness sees
before it happens: it can note it, make it fail, or end the process there (leaving what was really written).

Only the interface of the operating system is wrapped; nothing of the code under test is named."""
import builtins
import errno
import hashlib
import io
import itertools
import os
import shutil
import sys
import threading
import time

from . import env

REAL_OPEN = io.open
REAL = {}
NAMES = ('mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'replace', 'stat', 'lstat', 'listdir', 'scandir', 'open', 'truncate',
         'link', 'symlink', 'utime', 'chmod')


class Ops:
    base = None     # operations below this directory count
    hook = None     # hook(kind, path, size) -> None | 'torn'; may raise OSError or end the process
    def __init__(self):
        self.local = threading.local()

    @property
    def busy(self):
        return getattr(self.local, 'busy', False)

    @busy.setter
    def busy(self, x):
        self.local.busy = x

    def hit(self, kind, path, size=None):
        if self.hook is None or self.busy:
            return None
        try:
            path = os.fsdecode(path)
        except TypeError:
            return None
        path = os.path.abspath(path)
        if not path.startswith(self.base):
            return None
        self.busy = True
        try:
            return self.hook(kind, path[len(self.base):], size)
        finally:
            self.busy = False


OPS = Ops()


class Raw(io.FileIO):
    def write(self, b):
        how = OPS.hit('write', self.name, len(b))
        if how == 'torn':
            super().write(bytes(b)[:max(len(b) // 2, 1)])
            os._exit(9)
        return super().write(b)

    def readinto(self, b):
        OPS.hit('read', self.name)
        return super().readinto(b)

    def readall(self):
        OPS.hit('read', self.name)
        return super().readall()

    def read(self, size=-1):
        OPS.hit('read', self.name)
        return super().read(size)


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if OPS.hook is None or OPS.busy or isinstance(file, int):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.fspath(file)
    full = os.path.abspath(os.fsdecode(path))
    if not full.startswith(OPS.base):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    kinds = mode.replace('b', '').replace('t', '')
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take text arguments")
    OPS.hit('openr' if kinds == 'r' else 'openw', full, kinds)
    raw = Raw(path, kinds, closefd, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if '+' in kinds:
            buf = io.BufferedRandom(raw, size)
        elif kinds == 'r':
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _where(args, kw):
    path = args[0] if args else kw.get('path', kw.get('src', '.'))
    fd = kw.get('dir_fd')
    if isinstance(path, int):
        return os.readlink(f'/proc/self/fd/{path}')
    if fd is not None:
        return os.path.join(os.readlink(f'/proc/self/fd/{fd}'), os.fsdecode(path))
    return path


def _wrap(name, real):
    def func(*args, **kw):
        if OPS.hook is not None and not OPS.busy:
            OPS.hit(name, _where(args, kw) if args or kw else '.')
            if name in ('rename', 'replace', 'link'):
                OPS.hit(name + '>', args[1])
        return real(*args, **kw)
    func.__name__ = name
    return func


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    env.install()
    builtins.open = io.open = _open
    shutil._USE_CP_SENDFILE = False
    for name in NAMES:
        REAL[name] = getattr(os, name)
        setattr(os, name, _wrap(name, REAL[name]))


class on:
    """with on(hook): operations below the scratch directory go through the hook"""

    def __init__(self, hook, base=None):
        self.hook = hook
        self.base = base

    def __enter__(self):
        install()
        self.sleep, time.sleep = time.sleep, lambda t: None
        # identifiers made at random are the same in every run
        self.urandom, n = os.urandom, itertools.count(1)
        os.urandom = lambda size: hashlib.sha256(str(next(n)).encode()).digest()[:size].ljust(size, b'.')
        OPS.base = os.path.abspath(self.base or env.scratch_dir()) + os.sep
        OPS.hook = self.hook

    def __exit__(self, *a):
        OPS.hook = None
        time.sleep = self.sleep
        os.urandom = self.urandom


def record(func, base=None):
    """-> [(kind, path, size)] of func()"""
    log = []

    def hook(kind, path, size):
        log.append((kind, path, size))
    with on(hook, base):
        func()
    return log


def fault(func, at, err, base=None):
    """func() with the operation number `at` and every later one of its kind on the same path failing
    -> (operation, exception or None)"""
    state = {'n': -1, 'op': None}

    def hook(kind, path, size):
        state['n'] += 1
        if state['n'] == at:
            state['op'] = (kind, path)
        if state['op'] == (kind, path):
            raise OSError(err, os.strerror(err), path)
    with on(hook, base):
        try:
            func()
            return state['op'], None
        except Exception as exc:
            return state['op'], exc


def crash(func, at, torn=False, base=None):
    """func() in a process of its own that ends right before operation number `at` (in the middle of it if torn)
    -> the operation ended there, None if func came to its end"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            n = [-1]

            def hook(kind, path, size):
                n[0] += 1
                if n[0] == at:
                    os.write(w, f'{kind} {path}'.encode())
                    if torn:
                        return 'torn'
                    os._exit(9)
                return None
            try:
                with on(hook, base):
                    func()
                code = 0
            except Exception:
                code = 1
        finally:
            os._exit(code)
    os.close(w)
    _, status = os.waitpid(pid, 0)
    op = os.read(r, 4096).decode()
    os.close(r)
    code = os.waitstatus_to_exitcode(status)
    if code == 9:
        return op
    if code == 0:
        return None
    raise RuntimeError(f'the run that was to be interrupted at {at} failed ({code})')


ERRORS = {'openr': (errno.EACCES, errno.EIO), 'read': (errno.EIO,), 'openw': (errno.EACCES, errno.ENOSPC), 'write': (errno.ENOSPC,),
          'mkdir': (errno.EACCES,), 'unlink': (errno.EACCES,), 'remove': (errno.EACCES,), 'rmdir': (errno.EACCES,),
          'rename': (errno.EACCES,), 'replace': (errno.EACCES,), 'listdir': (errno.EACCES,), 'scandir': (errno.EACCES,),
          'open': (errno.EACCES,)}
