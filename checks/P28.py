"""A command leaves nothing behind but its result: neither in the process it runs in (worker processes, open files, the
working directory, the environment, changed arguments) nor on the disk (temporary folders, files outside the folders named)."""
import copy
import errno
import gc
import json
import os
import subprocess
import sys
import tempfile
import threading

from mc import drive, env, fs, ops
from mc.core import Check

from .P13 import PASS, PRODUCTS, Runs, name

SETUPS = {
    'extract': [dict(cmd='extract', temp=1), dict(cmd='extract', index=1, options={'auto_include': True}),
                dict(cmd='extract', options={'descent': 100}), dict(cmd='extract', index=1, temp=1, options={'descent': 100, 'auto_include': True})],
    'build': [dict(cmd='build', temp=1), dict(cmd='build', index=1, options={'auto_include': True, 'product': 'п', 'prefix': 'пр_'}),
              dict(cmd='build', options={'descent': 100}), dict(cmd='build', index=1, temp=1, options={'descent': 100, 'version': '803'})],
    'update': [dict(cmd='update', index=1)],
}
PROGRAM = '''
import json, multiprocessing, os, sys, threading
from v8unpack import v8unpack as api
out = []
for func, a, b, options in json.loads(sys.argv[1]):
    try:
        getattr(api, func)(a, b, options=options, processes=3)
        ok = True
    except Exception:
        ok = False
    threads = [t.name for t in threading.enumerate() if t is not threading.main_thread() and not t.daemon]
    out.append([ok, len(multiprocessing.active_children()), threads, sorted(os.listdir(os.environ['TMPDIR'])) if ok else []])
print('RESULT' + json.dumps(out))
'''


class P28(Check):
    id = 'P28'
    chunk = 1
    rule = 'products x commands x options, with and without a temporary folder of their own, undisturbed and with every single ' \
           'file operation failing'
    bound = {'quick': '4 products, 9 set-ups, one failing operation, one error for it',
             'thorough': 'every error of each operation'}
    PARTS = 8

    def setup(self):
        self.d = drive.Driver()
        self.r = Runs(self.d)
        ops.install()

    def spaces(self, tier):
        return [(n, [dict(s, product=p, part=i) for s in setups for p in PRODUCTS for i in range(self.PARTS)])
                for n, setups in SETUPS.items()]

    def prepare(self, c):
        r, d = self.r, self.d
        fs.wipe(d.at('tmp'))
        os.makedirs(d.at('tmp'))
        tempfile.tempdir = d.at('tmp')
        r.prepare(c)
        fs.put(d.at('w'), {'чужой.txt': 'x', 'папка/чужой.txt': 'x'})
        if c.get('temp'):
            fs.put(d.at('w', 'temp'), {'старый': 'x'})
        else:
            fs.wipe(d.at('w', 'temp'))
        fs.wipe(d.at('tmp'))
        os.makedirs(d.at('tmp'))
        env.ENV.pools = []
        self.given = dict(options=copy.deepcopy(c.get('options')), temp_dir=d.at('w', 'temp') if c.get('temp') else None)
        if r.kw:
            self.given['index'] = r.kw['index']
        self.kept = copy.deepcopy(self.given)

    def command(self, c):
        d = self.d
        if c['cmd'] == 'update':
            return self.r.command(c)
        if c['cmd'] == 'extract':
            return lambda: d.quiet(d.api.extract, d.at('w', 'in.bin'), d.at('w', 'src'), **self.given)
        return lambda: d.quiet(d.api.build, d.at('w', 'src'), d.at('w', 'out.bin'), **self.given)

    def process(self):
        """what there is in the process"""
        files = []
        for n in os.listdir('/proc/self/fd'):
            try:
                path = os.readlink('/proc/self/fd/' + n)
            except OSError:
                continue
            if path.startswith(self.d.base):
                files.append(path)
        return {'open files': sorted(files), 'working directory': os.getcwd(), 'environment': dict(os.environ), 'sys.path': list(sys.path),
                'recursion limit': sys.getrecursionlimit(), 'threads': sorted(t.name for t in threading.enumerate()),
                'umask': umask(), 'standard streams': (sys.stdout, sys.stderr, sys.stdin), 'folder for temporary files': tempfile.gettempdir()}

    def judge(self, c, before, what, err=False):
        d, r = self.d, self.r
        after = self.process()
        if after['open files'] != before['open files']:
            gc.collect()
            after = self.process()
        for key in before:
            if before[key] != after[key]:
                self.fail(f'{what}: {key} of the process: {after[key]!r:.300}, was {before[key]!r:.300}')
        left = [p for p in env.ENV.pools if not p._closed]
        if left:
            self.fail(f'{what}: {len(left)} pools of worker processes are left running')
        if self.given != self.kept:
            self.fail(f'{what}: the parameters given are changed: {self.kept} -> {self.given}')
        tree = fs.tree(d.base)
        own = {'extract': ('w/src', 'w/core', 'w/мой'), 'build': ('w/out.bin',), 'update': ('w/index.json',)}[c['cmd']]
        if c['cmd'] == 'extract' and 'descent' in (c.get('options') or {}):   # what is shared lies one level up
            own += ('core', 'мой')
        if c.get('temp'):
            own += ('w/temp',)
        if err:
            own += ('tmp', )
            if c['cmd'] == 'build':
                own += tuple('w/' + n for n in os.listdir(d.at('w')) if n.startswith('out.bin'))
            if c['cmd'] == 'update':
                own += tuple('w/' + n for n in os.listdir(d.at('w')) if n.startswith('index.json'))
        for n in sorted(set(tree) | set(self.tree), key=lambda n: (n in self.tree, n)):
            if any(n == x or n.startswith(x + '/') for x in own):
                continue
            if n not in self.tree:
                self.fail(f'{what}: {n} is left behind')
            if n not in tree:
                self.fail(f'{what}: {n} is gone')
            if tree[n] != self.tree[n]:
                self.fail(f'{what}: {n} is changed')
        if not err and c.get('temp') and not os.path.isdir(d.at('w', 'temp')):
            self.fail(f'{what}: the temporary folder given is removed')

    def run(self, c):
        self.prepare(c)
        log = ops.record(self.command(c))
        errors = ops.ERRORS
        seen = set()
        if c['part'] == 0:
            self.prepare(c)
            self.tree = fs.tree(self.d.base)
            before = self.process()
            self.command(c)()
            self.judge(c, before, name(c))
            self.count(executions=1)
        for i, op in enumerate(log):
            if op[0] in PASS:
                continue
            key = (op[0], op[1]) if op[0] == 'read' else i
            if key in seen:
                continue
            seen.add(key)
            if i % self.PARTS != c['part']:
                continue
            errs = errors.get(op[0], (errno.EACCES,))
            for err in errs if self.tier != 'quick' else errs[i % len(errs):][:1]:
                self.one(c, i, op, err)

    def one(self, c, i, op, err):
        self.prepare(c)
        self.tree = fs.tree(self.d.base)
        before = self.process()
        at, exc = ops.fault(self.command(c), i, err)
        failed = exc is not None
        del exc
        self.count(executions=1, transitions=1)
        what = f'{name(c)}: {op[0]} of {op[1]} fails with {errno.errorcode[err]}'
        # the command's own temporary folder may be what could not be removed
        self.judge(c, before, what, failed or at[1].startswith('tmp'))

    def conformance(self):
        """real processes with real workers: after every command, carried out or not, no worker is left"""
        d, n = self.d, 0
        for product in PRODUCTS:
            c = dict(cmd='build', product=product)
            self.prepare(c)
            cmds = [['extract', 'in.bin', 'src1', {}], ['extract', 'in.bin', 'src2', {'descent': 5}], ['build', 'src1', 'o1.bin', {}],
                    ['extract', 'чужой.txt', 'src3', {}], ['build', 'nosrc', 'o2.bin', {}], ['build', 'src1', 'no/o.bin', {}],
                    ['extract', 'нет.bin', 'src3', {}], ['build', 'src1', 'o3.bin', {'descent': 'x'}]]
            expect = [True, True, True, False, False, None, False, None]
            p = subprocess.run([sys.executable, '-W', 'ignore', '-c', PROGRAM, json.dumps(cmds)], cwd=d.at('w'), timeout=200,
                               env=dict(os.environ, PYTHONPATH=env.SRC, PYTHONDONTWRITEBYTECODE='1', TMPDIR=d.at('tmp')),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            text = p.stdout.decode(errors='replace')
            if 'RESULT' not in text:
                raise AssertionError(text[-500:])
            failed = False
            for cmd, want, (ok, children, threads, temp) in zip(cmds, expect, json.loads(text.split('RESULT')[1])):
                n += 1
                failed = failed or not ok
                what = f'{product}: {cmd} (real processes)'
                if want is not None and ok != want:
                    self.fail(f'{what}: {"no" if ok else "an"} error')
                if children or threads:
                    self.fail(f'{what}: {children} worker processes, threads {threads} are left running')
                if temp and not failed:
                    self.fail(f'{what}: {temp} left in the folder for temporary files')
        return n


def umask():
    x = os.umask(0o22)
    os.umask(x)
    return x


CHECK = P28()
