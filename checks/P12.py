"""Sources and products do not depend on the order in which worker processes run and finish, on what they do at the same
time, on how many there are, nor on the order in which folders are listed."""
import itertools
import json
import math
import os
import subprocess
import sys
import zlib

from mc import cfmt, core, drive, env, fs, ops, sched, v8conf
from mc.core import Check

from . import P13

SHARED = '#Область include_core_общий\r\nОбщий код\r\n#КонецОбласти\r\nКод {}\r\n'
PRODUCTS = dict(P13.PRODUCTS, **{
    # objects that share names, folders and parts of the code
    'same': dict(kind='cf', m=['app'], objs=[
        *[dict(t='CommonModule', n=f'М{i}', m=['obj'], text={'obj': SHARED.format(i)}) for i in range(3)],
        *[dict(t=t, n='О', m=['obj', 'mgr'], text={'obj': SHARED.format(t)}, c=[
            dict(t=f'{t}Form', n='Ф'), dict(t=f'{t}Form', n='Ф2', uf=0), dict(t='Template', n='Ф')]) for t in ('Catalog', 'Document')],
        dict(t='Subsystem', n='П', m=['info'], c=[dict(t='Subsystem', n='П', m=['info'], c=[dict(t='Subsystem', n='П', m=['info'])]),
                                                  dict(t='Subsystem', n='О', m=['info'])]),
        dict(t='Subsystem', n='О', m=['info'])]),
    # a container for older platforms in front
    'two': dict(kind='epf', m=['obj'], objs=[dict(t='Form', n='Ф')])})
INDEX = dict(P13.INDEX, two={'Form': {'Ф': {'*': 'core'}}}, same={
    'CommonModule': {f'М{i}': {'*': f'core/модули{i}'} for i in range(2)}, 'Области include': {'core_общий': 'общее_код'},
    'Catalog': {'О': {'CatalogForm': {'Ф': {'CatalogForm.obj.bsl': 'core/ф.bsl'}, 'Ф2': {'CatalogForm.json': 'core/модули0/ф.json'}}}}})
SETUPS = [dict(cmd='extract'), dict(cmd='extract', index=1), dict(cmd='extract', index=1, options={'auto_include': True}),
          dict(cmd='extract', options={'descent': 100}), dict(cmd='build'), dict(cmd='build', index=1),
          dict(cmd='build', index=1, options={'auto_include': True}), dict(cmd='build', index=1, options={'descent': 100}),
          dict(cmd='update', index=1)]


FRONT = [('a', b'1'), ('b.0', [('text', b'2'), ('info', b'3')]), ('b.1', [('x', b'4' * 900)]), ('c', b'5')]


def layout(blob):
    """everything about a product file but the contents of the last container: containers, members in their order"""
    out = []
    containers = cfmt.parse(blob)
    for c in containers:
        for name, data in c['files']:
            data = zlib.decompress(data, -15)
            if data[:4] == b'\xff\xff\xff\x7f':
                sub = cfmt.parse(data)[0]['files']
                out.append((c['bits'], name, [(n, x if c is not containers[-1] else None) for n, x in sub]))
            else:
                out.append((c['bits'], name, data if c is not containers[-1] else None))
    return out


class Runs(P13.Runs):
    products, index = PRODUCTS, INDEX

    def blob(self, c):
        blob = super().blob(c)
        if c['product'] == 'two':
            blob = cfmt.write_container(cfmt.F32, [
                (n, v8conf.deflate(cfmt.write_container(cfmt.F32, x) if isinstance(x, list) else x)) for n, x in FRONT]) + blob
        return blob

    def differences(self, c, want, got):
        out = super().differences(c, want, got)
        if not out and layout(want) != layout(got):
            out = [f'it is laid out otherwise: {[x for x in zip(layout(want), layout(got)) if x[0] != x[1]][:2]!r:.300}']
        return out

    def state(self, c):
        got = super().state(c)
        if c['cmd'] == 'update':
            # the order of the entries is of no importance
            got['index.json'] = json.dumps(json.loads(got['index.json']), sort_keys=True).encode()
        return got


class P12(Check):
    id = 'P12'
    chunk = 1
    case_timeout = 300
    rule = 'products x commands x options x (orders of the tasks of every pool call; interleavings of every two tasks whose ' \
           'file operations do not commute; orders of every folder listing)'
    bound = {'quick': '6 products, 9 set-ups; all orders of <=4 tasks or names (moves, swaps, reversal of more), one call at a time and '
                      'all calls reversed or not; interleavings with <=2 preemptions',
             'thorough': 'all orders of <=5 tasks; interleavings with <=4 preemptions'}
    PARTS = 8

    def setup(self):
        self.d = drive.Driver()
        self.r = Runs(self.d)
        ops.install()

    def conformance(self):
        """real pools of 1, 2 and 5 processes"""
        d, r, n = self.d, self.r, 0
        for product, cmd in itertools.product(PRODUCTS, ('extract', 'build')):
            c = dict(cmd=cmd, product=product, index=1)
            want = self.reference(c)[1]
            for procs in ('1', '2', '5'):
                r.prepare(c)
                argv = ['-E', 'in.bin', 'src'] if cmd == 'extract' else ['-B', 'src', 'out.bin']
                p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'v8unpack', *argv, '--temp', 'temp', '--processes', procs,
                                    '--index', 'index.json'],
                                   cwd=d.at('w'), env=dict(os.environ, PYTHONPATH=env.SRC, PYTHONDONTWRITEBYTECODE='1'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
                n += 1
                what = f'{P13.name(c)} with {procs} real processes'
                if p.returncode:
                    self.fail(f'{what} fails: {p.stdout.decode()[-300:]}')
                r.result(c, want, f'{what}:', self.fail)
        return n

    def spaces(self, tier):
        def cases(op):
            return [dict(op=op, product=p, part=i, **s) for s in SETUPS for p in PRODUCTS for i in range(self.PARTS)
                    if s['cmd'] != 'update' or op == 'listing']
        return [('order', cases('order')), ('race', cases('race')), ('listing', cases('listing'))]

    def run(self, case):
        getattr(self, 'run_' + case['op'])(case)

    def reference(self, c):
        self.r.prepare(c)
        rec = sched.Recorder()
        lists = []
        with sched.on(rec):
            env.ENV.list_order = lambda names: (lists.append(len(names)), names)[1]
            self.r.command(c)()
            env.ENV.list_order = None
        return rec, self.r.state(c), lists

    def attempt(self, c, scheduler, want, what):
        self.r.prepare(c)
        self.count(executions=1, transitions=1)
        try:
            with sched.on(scheduler):
                self.r.command(c)()
        except Exception as err:
            self.fail(f'{P13.name(c)}, {what}: {core.short(err)}')
        finally:
            env.ENV.list_order = None
        self.r.result(c, want, f'{P13.name(c)}, {what}:', self.fail)

    # ------------------------------------------------------------------ order of the tasks
    def run_order(self, c):
        rec, want, _ = self.reference(c)
        sizes = [len(x) for x in rec.calls]
        plans = [{k: p} for k, n in enumerate(sizes) for p in orders(n, 4 if self.tier == 'quick' else 5)]
        plans += [{k: list(range(n))[::-1] for k, n in enumerate(sizes) if bits >> k & 1} for bits in range(1, 2 ** len(sizes))]
        for i, plan in enumerate(plans):
            if i % self.PARTS == c['part']:
                self.attempt(c, sched.Orders(lambda k, n: plan.get(k, range(n))), want, f'tasks of pool calls done in order {plan}')

    # ------------------------------------------------------------------ at the same time
    def run_race(self, c):
        rec, want, _ = self.reference(c)
        jobs = [(k, pair, points) for k, call in enumerate(rec.calls) for pair, points in sorted(sched.conflicts(call).items())]
        for n, (k, (i, j), points) in enumerate(jobs):
            if n % self.PARTS != c['part']:
                continue

            def body(chooser):
                self.attempt(c, sched.Pair(k, i, j, points, chooser), want,
                             f'tasks {i} and {j} of pool call {k} at the same time (switching at {sorted(points)[:4]})')

            for _ in core.explore(body, 2 if self.tier == 'quick' else 4):
                pass

    # ------------------------------------------------------------------ listings
    def run_listing(self, c):
        _, want, lists = self.reference(c)
        plans = [{k: p} for k, n in enumerate(lists) for p in orders(n, 3 if self.tier == 'quick' else 4, False)]
        plans += [None, 'rotated']
        for i, plan in enumerate(plans):
            if i % self.PARTS != c['part']:
                continue
            at = itertools.count()

            def order(names):
                if plan is None:
                    return names[::-1]
                if plan == 'rotated':
                    return names[1:] + names[:1]
                p = plan.get(next(at))
                return [names[x] for x in p] if p and len(p) == len(names) else names

            self.r.prepare(c)
            self.count(executions=1, transitions=1)
            what = f'{P13.name(c)}, folders listed in another order ({plan or "all reversed"})'
            try:
                with sched.on(None):
                    env.ENV.list_order = order
                    self.r.command(c)()
            except Exception as err:
                self.fail(f'{what}: {core.short(err)}')
            finally:
                env.ENV.list_order = None
            self.r.result(c, want, f'{what}:', self.fail)


def orders(n, full, swaps=True):
    """orders of n things other than the natural one: all if they are few"""
    ident = tuple(range(n))
    if n <= full:
        return [list(p) for p in itertools.permutations(ident) if p != ident]
    out = {ident[::-1], ident[1:] + ident[:1], ident[-1:] + ident[:-1]}
    if swaps:
        for i in range(n):
            rest = ident[:i] + ident[i + 1:]
            out.add((i,) + rest)
            out.add(rest + (i,))
            if i + 1 < n:
                out.add(ident[:i] + (i + 1, i) + ident[i + 2:])
    out.discard(ident)
    return [list(p) for p in sorted(out)]


CHECK = P12()
