"""An interrupted command can be repeated, and a command after any others gives what it gives alone: ended at any file
operation (in the middle of it too) it spoils none of its inputs, leaves the old product or the whole new one, and the
next run gives exactly what an undisturbed run gives; so does any command after any sequence of commands."""
import filecmp
import itertools
import json
import os
import pickle
import subprocess
import sys

from mc import cfmt, drive, env, fs, ops, v8conf
from mc.core import Check

from .P13 import INDEX, PRODUCTS, Runs, name, same_temp

# after these the files are as they were before
PASS = {'stat', 'lstat', 'chmod', 'utime', 'rename>', 'replace>', 'link>', 'openr', 'read', 'listdir', 'scandir', 'open'}
FILES = {'catalog': 'Catalog/К/Catalog.obj.bsl', 'others': 'CommonModule/Код/CommonModule.obj.bsl',
         'cfe': 'CommonForm/Ф/CommonForm.obj.bsl', 'epf': 'Form/Ф/Form.obj.bsl'}
SETUPS = {
    'extract': [dict(cmd='extract', old=1), dict(cmd='extract', index=1), dict(cmd='extract', index=1, options={'auto_include': True}),
                dict(cmd='extract', options={'descent': 100}), dict(cmd='extract', two=1, old=1)],
    'build': [dict(cmd='build', old=1), dict(cmd='build', index=1), dict(cmd='build', two=1),
              dict(cmd='build', index=1, options={'auto_include': True, 'descent': 100})],
    'update': [dict(cmd='update', index=1)],
}


class P14(Check):
    id = 'P14'
    chunk = 1
    case_timeout = 300
    rule = 'products x commands x options x every point at which the process can end (before and in the middle of every ' \
           'file operation that changes something), then the same command once more; all sequences of commands up to a depth'
    bound = {'quick': '4 products, 10 set-ups, every point; sequences of <=3 of 9 commands', 'thorough': 'the same; sequences of <=4'}
    PARTS = 16

    def setup(self):
        self.d = drive.Driver()
        self.r = TwoRuns(self.d)
        ops.install()
        self.alone()

    def spaces(self, tier):
        out = []
        for name, setups in SETUPS.items():
            out.append((name, [dict(op='crash', product=p, part=i, **s) for s in setups for p in PRODUCTS for i in range(self.PARTS)]))
        out.append(('history', self.histories(3 if tier == 'quick' else 4)))
        return out

    def run(self, case):
        getattr(self, 'run_' + case['op'])(case)

    def conformance(self):
        """what an interrupted command left, with the command repeated by real processes with real workers"""
        r, d, n = self.r, self.d, 0
        for product, cmd in itertools.product(PRODUCTS, ('extract', 'build')):
            c = dict(cmd=cmd, product=product, old=1)
            r.prepare(c)
            log = ops.record(r.command(c))
            want = r.state(c)
            changes = [i for i, op in enumerate(log) if op[0] not in PASS]
            for i in (changes[len(changes) // 2], changes[-1]):
                r.prepare(c)
                ops.crash(r.command(c), i)
                argv = ['-E', 'in.bin', 'src'] if cmd == 'extract' else ['-B', 'src', 'out.bin']
                p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'v8unpack', *argv, '--temp', 'temp', '--processes', '2'],
                                   cwd=d.at('w'), env=dict(os.environ, PYTHONPATH=env.SRC, PYTHONDONTWRITEBYTECODE='1'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
                n += 1
                what = f'{name(c)}, ended before {log[i][0]} of {log[i][1]}, repeated by real processes,'
                if p.returncode:
                    self.fail(f'{what} fails: {p.stdout.decode()[-300:]}')
                r.result(c, want, what, self.fail)
        return n

    # ------------------------------------------------------------------ interrupted commands
    def run_crash(self, c):
        r = self.r
        r.prepare(c)
        log = ops.record(r.command(c))
        want = r.state(c)
        for i, op in enumerate(log):
            if op[0] in PASS or i % self.PARTS != c['part']:
                continue
            for torn in (False, True) if op[0] == 'write' else (False,):
                self.one(c, i, op, torn, want)

    def one(self, c, i, op, torn, want):
        r = self.r
        r.prepare(c)
        before = r.state(c)
        at = ops.crash(r.command(c), i, torn)
        self.count(executions=2, transitions=1)
        what = f'{name(c)}, ended {"in the middle of" if torn else "before"} {op[0]} of {op[1]}'
        if at is None or at.split(' ')[0] != op[0] or not same_temp(at.split(' ', 1)[1], op[1]):
            raise AssertionError(f'{what}: the run took another way: {at}')
        got = r.state(c)
        for n in before:
            if n == 'index.json' and c['cmd'] == 'update':
                if got.get(n) not in (before[n], want[n]):
                    self.fail(f'{what}: index.json is neither the old nor the new one')
            elif n in ('in.bin', 'index.json', 'sub/index.json') or c['cmd'] == 'build' and n.startswith(('src/', 'core/')):
                if got.get(n) != before[n]:
                    self.fail(f'{what}: {n} has changed')
        if c['cmd'] == 'build' and got.get('out.bin') != before.get('out.bin'):
            diff = r.differences(c, want['out.bin'], got.get('out.bin', b''))
            if diff:
                self.fail(f'{what}: the product is neither the old nor the new one: {diff[0]}')
        filecmp.clear_cache()
        try:
            r.command(c)()
        except Exception as exc:
            self.fail(f'{what}: the command cannot be repeated: {exc}'[:600])
        r.result(c, want, f'{what}, run once more,', self.fail)

    # ------------------------------------------------------------------ sequences
    def histories(self, depth):
        """a history is its commands; those that need what is not there yet are left out"""
        for n in range(1, depth + 1):
            for seq in itertools.product(COMMANDS, repeat=n):
                state = dict(src=None, out=None)
                if all(possible(state, cmd) for cmd in seq):
                    yield dict(op='history', seq=list(seq))

    def alone(self):
        """what every command gives in a process of its own, with nothing there before"""
        self.want = {}
        for label in ('A', 'A+', 'B', 'A*', 'A+*', 'B*'):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    h = History(self.d)
                    h.begin()
                    for cmd in ['E' + label.rstrip('*')] + ['edit'] * ('*' in label) + ['build', 'again']:
                        h.do(cmd)
                    res = h.files()
                except Exception as exc:
                    res = f'{type(exc).__name__}: {exc}'
                try:
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                self.want[label] = pickle.load(f)
            os.waitpid(pid, 0)

    def run_history(self, c):
        h = History(self.d, self.want)
        h.begin()
        done, state, core = [], dict(src=None, out=None), {}
        for cmd in c['seq']:
            done.append(cmd)
            possible(state, cmd)
            what = f'after {", ".join(done)}'
            h.do(cmd, lambda text: self.fail(f'{what}: {text}'))
            self.count(executions=1, transitions=1)
            label = state['src']
            if label and isinstance(self.want[label], str):
                self.fail(f'a command alone (for {label}) fails: {self.want[label]}')
            if cmd.startswith('E') or cmd == 'edit':
                # what other sources have put there stays
                core.update(self.want[label]['core'])
            got = h.files()
            self.check(got, state, what)
            if got['core'] != core:
                self.fail(f'{what} core is not what the commands give alone: {fs.diff(core, got["core"])}')

    def check(self, got, state, what):
        for part, label in (('src', state['src']), ('out', state['out']), ('again', state.get('again'))):
            want = self.want[label][part] if label else {}
            if part == 'out':
                if label:
                    p = v8conf.Product(PRODUCTS[HISTORY[label[0]]])
                    p.tree = v8conf.unpack(want)
                    diff = '; '.join(p.compare(v8conf.unpack(got['out']))[:2])
                    if diff:
                        self.fail(f'{what} the product is not what the build gives alone: {diff}')
                continue
            diff = fs.diff(want, got[part])
            if diff:
                self.fail(f'{what} {part} is not what the command gives alone: {diff}')


HISTORY = {'A': 'catalog', 'B': 'epf'}
COMMANDS = ('EA', 'EA+', 'EB', 'edit', 'build', 'again', 'bad file', 'bad sources', 'no sources')


def possible(state, cmd):
    """is there what the command needs? what is there afterwards"""
    if cmd.startswith('E'):
        state['src'] = cmd[1:]
    elif cmd == 'edit':
        if not state['src'] or '*' in state['src']:
            return False
        state['src'] += '*'
    elif cmd == 'build':
        if not state['src']:
            return False
        state['out'] = state['src']
    elif cmd == 'again':
        if not state['out']:
            return False
        state['again'] = state['out']
    return True


class History:
    """commands that share the temporary folder, the sources, the product file and the options"""

    def __init__(self, d, want=None):
        self.d = d
        self.want = want

    def begin(self):
        d = self.d
        for n in os.listdir(d.base):
            if n not in ('tmp', 'w'):
                fs.wipe(os.path.join(d.base, n))
        d.start()
        os.chdir(d.at('w'))
        for label, product in HISTORY.items():
            d.write(label + '.bin', v8conf.pack(v8conf.Product(PRODUCTS[product]).tree))
        with open(d.at('w', 'A.bin'), 'rb') as f:
            d.write('bad.bin', f.read()[:-700])
        fs.put(d.at('w', 'broken'), {'Configuration.json': '{"header": [', 'Configuration.app.bsl': 'x'})
        self.options = {'A': {}, 'A+': {'auto_include': True}, 'B': {}}
        self.last = self.built = None
        self.index = d.at('w', 'index.json')
        fs.put(d.at('w'), {'index.json': json.dumps(INDEX['catalog'], ensure_ascii=False)})

    def kw(self, label):
        label = label.rstrip('*')
        return dict(temp_dir=self.d.at('w', 'temp'), options=self.options[label], index=self.index if label[0] == 'A' else None)

    def do(self, cmd, fail=None):
        # identifiers made at random are the same for every command
        with ops.on(lambda *a: None):
            self.act(cmd, fail)

    def act(self, cmd, fail):
        d = self.d
        if cmd.startswith('E'):
            d.quiet(d.api.extract, d.at('w', cmd[1] + '.bin'), d.at('w', 'src'), **self.kw(cmd[1:]))
            self.last = cmd[1:]
        elif cmd == 'edit':
            core = self.want[self.last]['core'] if self.want else fs.tree(d.at('w', 'core'))
            for n in [f'src/{n}' for n in fs.tree(d.at('w', 'src'))] + [f'core/{n}' for n in core]:
                if n.endswith('.bsl'):
                    with open(d.at('w', n), 'a', encoding='utf-8') as f:
                        f.write('\n// изменено')
        elif cmd == 'build':
            d.quiet(d.api.build, d.at('w', 'src'), d.at('w', 'out.bin'), **self.kw(self.last))
            self.built = self.last
        elif cmd == 'again':
            d.quiet(d.api.extract, d.at('w', 'out.bin'), d.at('w', 'again', 'src'), **dict(self.kw(self.built), index=None))
        else:
            call = {'bad file': lambda: d.api.extract(d.at('w', 'bad.bin'), d.at('w', 'nothing'), **self.kw('A')),
                    'bad sources': lambda: d.api.build(d.at('w', 'broken'), d.at('w', 'bad.out'), **self.kw('A')),
                    'no sources': lambda: d.api.build(d.at('w', 'нет'), d.at('w', 'bad.out'), **self.kw('B'))}[cmd]
            try:
                d.quiet(call)
            except Exception:
                return
            fail(f'{cmd} is no error')

    def files(self):
        d = self.d
        out = b''
        if os.path.exists(d.at('w', 'out.bin')):
            with open(d.at('w', 'out.bin'), 'rb') as f:
                out = f.read()
        return dict(src=fs.tree(d.at('w', 'src')), core=fs.tree(d.at('w', 'core')), out=out, again=fs.tree(d.at('w', 'again')))


def two(old, new):
    """the file of a product with a container for older platforms in front"""
    return old + new


class TwoRuns(Runs):
    """some product files have a container for older platforms in front"""

    def blob(self, c):
        tree = v8conf.Product(PRODUCTS[c['product']]).tree
        if not c.get('two'):
            return v8conf.pack(tree)
        old = v8conf.pack(v8conf.Product(dict(kind='epf', m=['obj'], objs=[])).tree)
        return two(old, v8conf.pack(tree, cfmt.F64))

    def differences(self, c, want, got):
        out = super().differences(c, want, got)
        if c.get('two') and not out:
            try:
                out = [x for x in [fs.diff(v8conf.unpack(want, which=-2), v8conf.unpack(got, which=-2))] if x]
            except Exception as err:
                out = [f'its first container: {err}']
        return out


CHECK = P14()
