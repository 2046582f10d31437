"""Schedules of the tasks of a worker pool: tasks run as threads of which one at a time moves, handing over before file
operations another task may be in conflict with. All of them are enumerated (stateless exploration with a bound on
preemptions); operations no other task's operations are in conflict with commute and are no points to switch at."""
import threading

from . import ops

MUTATE = {'openw', 'write', 'mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'rename>', 'replace', 'replace>', 'truncate', 'link', 'link>',
          'symlink'}
SKIP = {'chmod', 'utime'}
LIST = {'listdir', 'scandir', 'open'}
# these change what is in the folder
NAMES = {'openw', 'mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'rename>', 'replace', 'replace>', 'link>', 'symlink'}


def parent(path):
    return path.rpartition('/')[0]


def conflict(a, b):
    """operations (kind, path) of two tasks that do not commute"""
    (k1, p1), (k2, p2) = a, b
    if k1 in SKIP or k2 in SKIP:
        return False
    if p1 == p2:
        return k1 in MUTATE or k2 in MUTATE
    if k1 in LIST and k2 in NAMES and parent(p2) == p1 or k2 in LIST and k1 in NAMES and parent(p1) == p2:
        return True
    # a folder is removed or renamed with what is in it
    return k1 in ('rmdir', 'rename', 'replace') and p2.startswith(p1 + '/') or \
        k2 in ('rmdir', 'rename', 'replace') and p1.startswith(p2 + '/')


class Recorder:
    """runs tasks one after another and notes the operations of each: calls[k][i] = [(kind, path)...]"""

    def __init__(self):
        self.calls = []
        self.now = None

    def hook(self, kind, path, size):
        if self.now is not None:
            self.now.append((kind, path))

    def __call__(self, n, run):
        call = [[] for _ in range(n)]
        self.calls.append(call)
        done = []
        for i in range(n):
            self.now = call[i]
            done.append((i, run(i)))
            self.now = None
        return done


def conflicts(call):
    """{(i, j): operations (kind, path) of both at which the order matters}"""
    # operations by path, so that not everything is compared with everything
    by = {}
    for i, log in enumerate(call):
        for op in set(log):
            if op[0] in SKIP:
                continue
            for key in {op[1], parent(op[1])}:
                by.setdefault(key, []).append((i, op))
    out = {}
    for ops_ in by.values():
        for x, (i, a) in enumerate(ops_):
            for j, b in ops_[x + 1:]:
                if i != j and conflict(a, b):
                    out.setdefault((min(i, j), max(i, j)), set()).update((a, b))
    return out


class Orders:
    """the tasks of each call, one after another in an order"""

    def __init__(self, order):
        self.order = order      # order(call number, n) -> permutation
        self.k = -1

    def __call__(self, n, run):
        self.k += 1
        return [(i, run(i)) for i in self.order(self.k, n)]


class Pair:
    """tasks i and j of call number k side by side, chooser telling who moves on at the points given; the others before"""

    def __init__(self, k, i, j, points, chooser):
        self.k, self.i, self.j, self.points, self.chooser = k, i, j, points, chooser
        self.n = -1
        self.task = None

    def hook(self, kind, path, size):
        if self.task is None or (kind, path) not in self.points:
            return
        me = self.threads.get(threading.get_ident())
        if me is not None:
            self.switch(me)

    def switch(self, me):
        other = 1 - me
        if self.finished[other] or not self.chooser(2):
            return
        self.turn[other].release()
        self.turn[me].acquire()

    def __call__(self, n, run):
        self.n += 1
        if self.n != self.k:
            return [(i, run(i)) for i in range(n)]
        done = [(i, run(i)) for i in range(n) if i not in (self.i, self.j)]
        pair = [self.i, self.j]
        self.task = True
        self.threads, self.finished = {}, [False, False]
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        errors = []

        def body(me):
            self.threads[threading.get_ident()] = me
            self.turn[me].acquire()
            try:
                done.append((pair[me], run(pair[me])))
            except BaseException as err:
                errors.append(err)
            self.finished[me] = True
            self.turn[1 - me].release()

        ts = [threading.Thread(target=body, args=(me,), daemon=True) for me in (0, 1)]
        for t in ts:
            t.start()
        while len(self.threads) < 2:
            pass
        self.turn[0].release()
        for t in ts:
            t.join()
        self.task = None
        if errors:
            raise errors[0]
        return done


def on(scheduler):
    """with on(scheduler): pool calls run under it"""
    return _On(scheduler)


class _On:
    def __init__(self, scheduler):
        self.s = scheduler

    def __enter__(self):
        from .env import ENV
        ENV.scheduler = self.s
        self.ops = ops.on(getattr(self.s, 'hook', lambda *a: None))
        self.ops.__enter__()

    def __exit__(self, *a):
        from .env import ENV
        self.ops.__exit__(*a)
        ENV.scheduler = None
