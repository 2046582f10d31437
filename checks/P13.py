"""No failing file operation is passed over: with any single operation (and its repetitions) failing, a command either
reports an error or does everything it should; what is left of a product is not taken for a whole one."""
import errno
import filecmp
import itertools
import json
import os
import resource
import subprocess
import sys

from mc import cfmt, drive, env, fs, ops, v8conf
from mc.core import Check

TEXT = 'Код\r\n#Область include_core_общий\r\nОбщий код\r\n#КонецОбласти\r\n'
FORM = dict(t='CatalogForm', n='Ф')
PRODUCTS = {
    'catalog': dict(kind='cf', m=['app', 'help', 'splash'], objs=[
        dict(t='Catalog', n='К', m=['obj', 'help', 'predef'], c=[FORM, dict(t='Template', n='М'), dict(t='CatalogCommand', n='Кмд')])]),
    'others': dict(kind='cf', ver='802', m=['seance:f', '4'], objs=[
        dict(t='CommonModule', n='Код', m=['obj:f'], text={'obj': TEXT}), dict(t='CommonPicture', n='П'),
        dict(t='CommonTemplate', n='Текст', tt='text'), dict(t='CommonTemplate', n='Двоичный', tt='base64'),
        dict(t='CommonTemplate', n='Сайт', tt='html'), dict(t='Role', n='Роль', m=['raw']), dict(t='WSReference', n='Ссылка', m=['wsdir']),
        dict(t='XDTOPackage', n='Пакет', m=['rawbin']), dict(t='ExchangePlan', n='План', m=['info', 'obj']),
        dict(t='CommonModule', n='Шифр', m=['obj'], text={'obj': dict(image='mP/+AAECAw==')})]),
    'cfe': dict(kind='cfe', m=['app'], objs=[dict(t='Subsystem', n='Под', m=['info', 'help'], c=[dict(t='Subsystem', n='Вложенная', m=['info'])]),
                                             dict(t='CommonForm', n='Ф', uf=0)]),
    'epf': dict(kind='epf', ver='802', m=['obj', 'form1'], text={'obj': TEXT}, objs=[
        dict(t='Form', n='Ф'), dict(t='Form', n='О', uf=0), dict(t='Form', n='С', oldform=1), dict(t='Template', n='М')]),
}
INDEX = {'catalog': {'Catalog': {'К': {'Catalog.obj.bsl': 'core/код.bsl', 'CatalogForm': {'Ф': {'*': 'core'}}}}},
         'others': {'CommonModule': {'Код': {'CommonModule.obj.bsl': 'core/код.bsl'}},
                    'CommonPicture': {'П': {'CommonPicture.bin': 'core/п.bin'}}},
         'cfe': {'index.json': ['sub/index.json'], 'Subsystem': {'Под': {'Subsystem.json': 'core/п.json'}}},
         'epf': {'ExternalDataProcessor.obj.bsl': 'core/код.bsl', 'Области include': {'core_общий': 'мой_общий'}}}
CUTS = [dict(kind='epf', m=['obj'], objs=[]), dict(kind='cf', objs=[dict(t='Role', n='Р', m=['raw'])]),
        dict(kind='cf', ver='803', pack64=1, objs=[dict(t='Role', n='Р', m=['raw'])]),
        dict(kind='cfe', m=['app'], objs=[dict(t='CommonForm', n='Ф')]),
        dict(kind='epf', ver='802', m=['obj', 'form1'], objs=[dict(t='Form', n='О', uf=0)])]
# looking whether a file is there is not made to fail; permissions and times of copies are of no importance
PASS = {'stat', 'lstat', 'chmod', 'utime', 'rename>', 'replace>', 'link>'}


class Runs:
    """commands on a product in the working directory"""
    products, index = PRODUCTS, INDEX

    def __init__(self, d):
        self.d = d

    def prepare(self, c):
        """everything the command starts from"""
        d = self.d
        filecmp.clear_cache()
        for n in os.listdir(d.base):
            if n not in ('tmp', 'w'):
                fs.wipe(os.path.join(d.base, n))
        d.start()
        os.chdir(d.at('w'))
        d.write('in.bin', self.blob(c))
        self.kw = {}
        if c.get('index'):
            fs.put(d.at('w'), {'index.json': json.dumps(self.index[c['product']], ensure_ascii=False),
                               'sub/index.json': json.dumps({'CommonForm': {'Ф': {'CommonForm.obj.bsl': 'core/ф.bsl'}}}, ensure_ascii=False)})
            self.kw['index'] = d.at('w', 'index.json')
        self.options = dict(c.get('options') or {})
        if c['cmd'] != 'extract':
            d.extract(None, options=self.options, **self.kw)
        if c.get('old'):
            # results of something else
            fs.put(d.at('w', 'src'), {'Catalog/Старый/Catalog.json': '{', 'старый.bsl': 'x'} if c['cmd'] == 'extract' else {})
            fs.put(d.at('w', 'temp'), {'decode_stage_0/0/старый': 'x', 'decode_stage_1/старый': 'x', 'decode_stage_3/старый.json': 'x',
                                       'encode_stage_0/0/старый': 'x', 'encode_stage_1/старый': 'x', 'encode_stage_3/старый.json': 'x'})
            if c['cmd'] == 'build':
                d.write('out.bin', b'old' * 50000)

    def blob(self, c):
        return v8conf.pack(v8conf.Product(self.products[c['product']]).tree)

    def command(self, c):
        if c['cmd'] == 'extract':
            return lambda: self.d.extract(None, options=self.options, **self.kw)
        if c['cmd'] == 'build':
            return lambda: self.d.build(options=self.options, **self.kw)
        return lambda: self.d.quiet(self.d.pkg.update_index, self.d.at('w', 'src'), self.kw['index'], 'core')

    def state(self, c):
        """what is there, without the temporary files"""
        return {n.removeprefix('w/'): x for n, x in fs.tree(self.d.base).items()
                if not n.startswith(('w/temp/', 'tmp/')) and x is not None}

    def differences(self, c, want, got):
        """of two files of a product"""
        p = v8conf.Product(self.products[c['product']])
        p.tree = v8conf.unpack(want)
        try:
            return p.compare(v8conf.unpack(got))
        except Exception as err:
            return [f'it cannot be read: {err}']

    def result(self, c, want, what, fail):
        """the state is the one wanted"""
        got = self.state(c)
        for n in sorted(set(want) | set(got)):
            if n == 'out.bin' and n in got and n in want:
                diffs = self.differences(c, want[n], got[n])
                if diffs:
                    fail(f'{what} the product is wrong: ' + '; '.join(diffs[:2]))
            elif want.get(n) != got.get(n):
                x = got.get(n)
                fail(f'{what} the file {n} is ' + ('missing' if x is None else f'{x[:80]!r}' + ('' if n in want else ' (not to be there)')))


SETUPS = {
    'extract': [dict(cmd='extract', old=1), dict(cmd='extract', index=1), dict(cmd='extract', index=1, options={'auto_include': True}),
                dict(cmd='extract', options={'descent': 100})],
    'build': [dict(cmd='build', old=1), dict(cmd='build', index=1), dict(cmd='build', index=1, options={'auto_include': True}),
              dict(cmd='build', index=1, options={'descent': 100})],
    'update': [dict(cmd='update', index=1)],
}


def name(c):
    return f'{c["cmd"]} {c["product"]} {c.get("options") or ""}{" index" if c.get("index") else ""}'


class P13(Check):
    id = 'P13'
    chunk = 1
    rule = 'products x commands x options x every file operation of the command x every error it can give, repeated ' \
           'attempts failing too; every product file cut off at any byte'
    bound = {'quick': '4 products, 9 set-ups, one failing operation, one error for it; 5 small products cut at every byte',
             'thorough': 'every error of each operation; 5 small products cut at every byte'}
    PARTS = 16
    CUT = 64

    def setup(self):
        self.d = drive.Driver()
        self.r = Runs(self.d)
        ops.install()

    def conformance(self):
        """real processes with real workers that run out of room for their files"""
        d, r, n = self.d, self.r, 0
        for product, cmd in itertools.product(PRODUCTS, ('extract', 'build')):
            c = dict(cmd=cmd, product=product)
            r.prepare(c)
            r.command(c)()
            want = r.state(c)
            for limit in (0, 300, 2000, 20000, 10 ** 7):
                r.prepare(c)
                argv = ['-E', 'in.bin', 'src'] if cmd == 'extract' else ['-B', 'src', 'out.bin']
                p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'v8unpack', *argv, '--temp', 'temp', '--processes', '2'],
                                   cwd=d.at('w'), env=dict(os.environ, PYTHONPATH=env.SRC, PYTHONDONTWRITEBYTECODE='1'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100,
                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit)))
                n += 1
                what = f'{cmd} {product}, files of at most {limit} bytes can be written (real processes)'
                if p.returncode == 0:
                    r.result(c, want, f'{what}, no error is reported, but', self.fail)
                elif limit == 10 ** 7:
                    self.fail(f'{what}: {p.stdout.decode()[-300:]}')
        return n

    def spaces(self, tier):
        out = []
        for name, setups in SETUPS.items():
            out.append((name, [dict(op='fault', product=p, part=i, **s) for s in setups for p in PRODUCTS
                               for i in range(self.PARTS)]))
        out.append(('cut', [dict(op='cut', product=p, part=i, step=1) for p in CUTS for i in range(self.CUT)]))
        return out

    def run_cut(self, c):
        """the file of a product was not copied to its end"""
        desc, d = c['product'], self.d
        blob = v8conf.pack(v8conf.Product(desc).tree, cfmt.F64 if desc.get('pack64') else cfmt.F32)
        d.start()
        d.extract(blob)
        want = fs.tree(d.at('w', 'src'))
        for n in range(c['part'] * c['step'], len(blob), self.CUT * c['step']):
            d.start()
            self.count(executions=1)
            try:
                d.extract(blob[:n])
            except Exception:
                continue
            if fs.tree(d.at('w', 'src')) != want:
                lost = [x for x in sorted(want) if fs.tree(d.at('w', 'src')).get(x) != want[x]]
                self.fail(f'of {len(blob)} bytes of {desc} only the first {n} are there, the extraction reports no error, '
                          f'but {lost[:3]} are missing or different')

    def run(self, case):
        getattr(self, 'run_' + case['op'])(case)

    def run_fault(self, c):
        r = self.r
        r.prepare(c)
        before = r.state(c)
        log = ops.record(r.command(c))
        want = r.state(c)
        points = [(i, op) for i, op in enumerate(log) if op[0] not in PASS]
        seen = set()
        for i, op in points:
            # a repeated reading of the same file fails the same way
            key = (op[0], op[1]) if op[0] == 'read' else i
            if key in seen:
                continue
            seen.add(key)
            if i % self.PARTS != c['part']:
                continue
            errs = ops.ERRORS.get(op[0], (errno.EACCES,))
            for err in errs if self.tier != 'quick' else errs[i % len(errs):][:1]:
                self.one(c, i, op, err, before, want)

    def one(self, c, i, op, err, before, want):
        r = self.r
        r.prepare(c)
        at, exc = ops.fault(r.command(c), i, err)
        self.count(executions=1, transitions=1)
        what = f'{name(c)}: {op[0]} of {op[1]} fails with {errno.errorcode[err]}'
        if at is None or at[0] != op[0] or not same_temp(at[1], op[1]):
            raise AssertionError(f'{what}: the run took another way: {at}')
        if exc is None:
            r.result(c, want, f'{what}, no error is reported, but', self.fail)
            return
        if not str(exc).strip():
            self.fail(f'{what}: the error reported is empty')
        got = r.state(c)
        inputs = ['in.bin', 'index.json', 'sub/index.json'] + ([n for n in before if n.startswith(('src/', 'core/'))]
                                                             if c['cmd'] != 'extract' else [])
        for n in inputs:
            if n in before and got.get(n) != before[n] and not (c['cmd'] == 'update' and n == 'index.json'):
                self.fail(f'{what}: the command reports an error and has changed {n}')
        if c['cmd'] == 'build' and got.get('out.bin') != before.get('out.bin') and \
                r.differences(c, want['out.bin'], got.get('out.bin', b'')):
            self.fail(f'{what}: the command reports an error, the product file is neither the former nor the whole new one')


def same_temp(a, b):
    """names of temporary files are random"""
    return a == b or os.path.dirname(a) == os.path.dirname(b)


CHECK = P13()
