"""The command line and the product file do what the functions do with the same parameters: every command x options x
way of writing paths, every product file of a few products; errors are reported by the exit code."""
import contextlib
import io
import itertools
import json
import os
import subprocess
import sys
import tempfile

from mc import drive, env, fs, v8conf
from mc.core import Check

DESC = {
    'cf': dict(kind='cf', m=['app'], objs=[dict(t='Catalog', n='прКлиенты', m=['obj'], c=[dict(t='Form', n='Форма')]),
                                           dict(t='CommonModule', n='Общий', m=['obj'])], cmt='ver:'),
    'cfe': dict(kind='cfe', m=['app'], objs=[dict(t='CommonModule', n='прОбщий', m=['obj']),
                                             dict(t='DataProcessor', n='прОбр', cmt='ver:')], cmt='ver:', prefix='пр'),
    'epf': dict(kind='epf', m=['obj'], objs=[dict(t='Form', n='Форма')], cmt='ver:'),
}
TARGET = {'cf': 'CommonModule/Общий/CommonModule.obj.bsl', 'cfe': 'ConfigurationExtension.app.bsl',
          'epf': 'ExternalDataProcessor.obj.bsl'}
OPTIONS = {'prefix': ['', 'пр'], 'descent': [0, 3000075100], 'version': ['80306'], 'auto_include': [True]}


def nest(path, value):
    for part in reversed(path.split('/')):
        value = {part: value}
    return value


class P21(Check):
    id = 'P21'
    chunk = 8
    rule = 'commands -E -B -I -EA -BA -IA x every combination of options x absolute, relative and bare paths x temporary ' \
           'folder given or not; product files of <=N products x disabled x options x shared folders x a product asked ' \
           'for; failing invocations; inputs, results and temporary files inside one another'
    bound = {'quick': '2 products', 'thorough': '3 products'}

    def setup(self):
        self.d = drive.Driver()
        self.blobs = {k: v8conf.pack(v8conf.Product(d).tree) for k, d in DESC.items()}
        # sources extracted once, with the descent variants of a file
        self.prepared = {}

    def conformance(self):
        """the same commands as processes of their own, with real worker processes"""
        n = 0
        for kind, how in itertools.product(DESC, (['-m', 'v8unpack'], ['-c', 'import sys; from v8unpack import main; sys.exit(main())'])):
            self.d.start()
            self.run_cli(dict(kind=kind, opts={}, paths='rel', temp=None, index=1, procs=None))
            want, w = fs.tree(self.d.at('w', 'cli')), self.d.at('w', 'proc')
            os.makedirs(w)
            os.makedirs(self.d.at('w', 'ptmp'))
            self.files(w, kind, True)
            e = dict(os.environ, PYTHONPATH=env.SRC, TMPDIR=self.d.at('w', 'ptmp'), PYTHONDONTWRITEBYTECODE='1')
            for argv, ret in ((['-E', 'in.bin', 'src', '--index', 'index.json', '--processes', '2'], 0),
                              (['-B', 'src', 'bin/p.out', '--index', 'index.json'], 0), (['-E', 'нет', 'src2'], 1), ([], 1)):
                r = subprocess.run([sys.executable, '-W', 'ignore', *how, *argv], cwd=w, env=e, capture_output=True, timeout=300)
                n += 1
                if r.returncode != ret:
                    self.fail(f'the process {how} {argv} ends with {r.returncode} instead of {ret}: '
                              f'{r.stdout.decode()[-300:]}{r.stderr.decode()[-300:]}')
            got = fs.tree(w)
            for name in want:
                if name.endswith('.out'):
                    p = v8conf.Product(DESC[kind])
                    p.tree = v8conf.unpack(want[name])
                    if p.compare(v8conf.unpack(got.get(name, b''))):
                        self.fail(f'real processes build another product: {kind}')
                elif got.get(name) != want[name]:
                    self.fail(f'real processes give another file {name}')
        return n

    # ------------------------------------------------------------------ spaces
    def spaces(self, tier):
        deep = tier == 'thorough'
        return [('cli', self.cli(deep)), ('update', self.update()), ('batch', self.batch(deep)),
                ('update_all', self.update_all()), ('errors', self.errors()), ('overlap', self.overlap())]

    @staticmethod
    def cli(deep):
        keys = list(OPTIONS)
        n = 0
        for values in itertools.product(*[[None] + OPTIONS[k] for k in keys]):
            opts = {k: v for k, v in zip(keys, values) if v is not None}
            for paths, temp, index, procs in itertools.product(('abs', 'rel', 'bare'), (None, 'rel', 'abs'), (0, 1), (None, 3)):
                # all pairs of options x paths are visited: kinds take turns
                n += 1
                for kind in DESC if deep else [list(DESC)[n % 3]]:
                    yield dict(op='cli', kind=kind, opts=opts, paths=paths, temp=temp, index=index, procs=procs)

    @staticmethod
    def update():
        for kind, index, core, src, missing in itertools.product(DESC, ('index.json', 'cmd/index.json', None), (None, 'core', '../core'),
                                                                 ('rel', 'abs'), (0, 1)):
            if index is None and missing:
                continue
            yield dict(op='update', kind=kind, index=index, core=core, src=src, missing=missing)

    @staticmethod
    def update_all():
        for n in (1, 2, 3):
            for disable in itertools.product((None, False, True), repeat=n):
                for code in [None] + list(range(n)):
                    for core in (None, 'core'):
                        for shared in (0, 1) if n > 1 else (0,):     # one directory file for all the products
                            yield dict(op='update_all', disable=list(disable), code=code, core=core, shared=shared)

    @staticmethod
    def batch(deep):
        one = []
        for disable, options, temp, index, where in itertools.product(
                (None, False, True), ('none', 'null', {}, {'prefix': 'пр'}, {'descent': None, 'auto_include': True},
                                      {'descent': 3000075100}), (None, 'temp'), (0, 1), ('rel', 'abs')):
            one.append(dict(disable=disable, options=options, temp=temp, index=index, where=where))
        for kind, p in itertools.product(DESC, one):
            for code in (None, 0):
                yield dict(op='batch', products=[dict(p, kind=kind)], code=code)
        few = [p for p in one if p['where'] == 'rel' and p['index'] == 0 and (p['disable'] is not False) and
               (p['temp'] == 'temp' or p['options'] == 'none')]
        for n in range(2, 4 if deep else 3):
            for ps in itertools.product(few, repeat=n) if n == 2 else itertools.product(few[::3], repeat=n):
                kinds = [list(DESC)[(i + len(str(ps))) % 3] for i in range(n)]
                for code in [None] + list(range(n)):
                    for shared in ((0, 1) if n == 2 and code is None else (0,)):
                        yield dict(op='batch', products=[dict(p, kind=kinds[0 if shared else i]) for i, p in enumerate(ps)],
                                   code=code, shared=shared)

    @staticmethod
    def errors():
        e = []
        e += [[], ['-E', 'in.bin'], ['-B', 'src'], ['-E', 'in.bin', 'src', '-B', 'src', 'out.bin'], ['-X'], ['--temp', 'x']]
        e += [['-E', 'нет.bin', 'src2'], ['-E', 'нет/нет.bin', 'src2'], ['-E', 'src', 'src2'], ['-E', 'text.txt', 'src2'],
              ['-E', 'empty.bin', 'src2'], ['-E', 'cut.bin', 'src2']]
        e += [['-B', 'нет', 'out.bin'], ['-B', 'emptydir', 'out.bin'], ['-B', 'src', 'emptydir'],
              ['-B', 'in.bin', 'out.bin'], ['-B', 'src', 'in.bin/out.bin']]
        for a, b in ('-E', ['in.bin', 'src2']), ('-B', ['src', 'out.bin']):
            e += [[a, *b, '--index', 'нет.json'], [a, *b, '--index', 'text.txt'], [a, *b, '--index', 'list.json'],
                  [a, *b, '--descent', 'abc'], [a, *b, '--processes', '0'], [a, *b, '--processes', 'x'], [a, *b, 'лишний'],
                  [a, *b, '--нет'], [a, *b, '--temp', 'in.bin'], [a, *b, '--index', 'badtarget.json']]
        for a in '-EA', '-BA', '-IA':
            e += [[a, 'нет.json'], [a, 'text.txt'], [a, 'list.json'], [a, 'products.json', '--index', 'нет'],
                  [a, 'nosrc.json'], [a, 'missing.json'], [a, 'products.json', 'лишний'], [a]]
        for argv in e:
            yield dict(op='errors', argv=argv)

    @staticmethod
    def overlap():
        """folders that are cleared hold what the command is to read"""
        temps = (None, '', '.', 'дело', 'дело/', './дело/src', 'дело/temp', 'дело/src/temp', 'ссылка', 'temp', 'дело2', 'дел')
        for mode, temp, kind in itertools.product(('cli', 'batch'), temps, DESC):
            for src, out, descent in itertools.product(('дело/in.bin', 'in.bin', 'ссылка/in.bin'),
                                                       ('.', 'дело', 'дело/', 'дело/src', 'ссылка', 'дело/..', 'дел', ''), (None, 100)):
                for index in (None, 'index.json', 'дело/index.json', 'дело/src/index.json') if kind == 'cf' else (None,):
                    yield dict(op='overlap', cmd='-E', mode=mode, src=src, out=out, temp=temp, kind=kind, descent=descent,
                               **({'index': index} if index else {}))
            for src, out in itertools.product(('дело/src', 'ссылка/src', 'дело/temp/src'),
                                              ('o.bin', 'дело/o.bin', 'дело/src/../o.bin', 'дело/temp/o.bin', 'temp/o.bin')):
                for index in (None, 'дело/index.json', 'дело/temp/index.json') if kind == 'cf' else (None,):
                    yield dict(op='overlap', cmd='-B', mode=mode, src=src, out=out, temp=temp, kind=kind, descent=None,
                               **({'index': index} if index else {}))

    # ------------------------------------------------------------------ helpers
    def main(self, argv):
        """-> exit code; nothing but it and the files counts"""
        was, sys.argv = sys.argv, ['v8unpack'] + argv
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                return self.d.pkg.main() or 0
        except SystemExit as err:
            return err.code if isinstance(err.code, int) else 1
        finally:
            sys.argv = was

    @contextlib.contextmanager
    def at(self, name):
        """current folder and the folder for temporary folders"""
        path = self.d.at('w', name)
        os.makedirs(path, exist_ok=True)
        tmp = self.d.at('w', 'tmp ' + name)
        os.makedirs(tmp, exist_ok=True)
        cwd, was = os.getcwd(), tempfile.tempdir
        tempfile.tempdir = tmp
        os.chdir(path)
        try:
            yield path
        finally:
            os.chdir(cwd)
            tempfile.tempdir = was

    def files(self, where, kind, index=False):
        """the product, stale results, a directory file in the current folder"""
        with open(os.path.join(where, 'in.bin'), 'wb') as f:
            f.write(self.blobs[kind])
        if index:
            with open(os.path.join(where, 'index.json'), 'w', encoding='utf-8') as f:
                json.dump(nest(TARGET[kind], 'core/модуль.bsl'), f, ensure_ascii=False)

    @staticmethod
    def stale(where, src, temp, out=None):
        for d in (src, temp):
            if d:
                os.makedirs(os.path.join(where, d), exist_ok=True)
                with open(os.path.join(where, d, 'старый.bsl'), 'w', encoding='utf-8') as f:
                    f.write('старый')

    def equal(self, kind, api, cli, what):
        """the folders after the functions and after the commands"""
        a, b = fs.tree(api), fs.tree(cli)
        for name in sorted(set(a) | set(b)):
            x, y = a.get(name), b.get(name)
            if x == y or 'temp/' in name or name.startswith('temp'):
                if (x is None) == (y is None):
                    continue
            if name.endswith('.out') and x is not None and y is not None:
                p = v8conf.Product(DESC[kind if isinstance(kind, str) else kind[name]])
                p.tree = v8conf.unpack(x)
                diffs = p.compare(v8conf.unpack(y))
                if not diffs:
                    continue
                self.fail(f'{what}: the product {name} differs from the one the function builds: ' + '; '.join(diffs[:2]))
            self.fail(f'{what}: the file {name} is {self.short(y)} instead of {self.short(x)}')

    @staticmethod
    def short(x):
        return 'absent' if x is None else repr(x[:100])

    def clean(self, name, what):
        left = os.listdir(self.d.at('w', 'tmp ' + name))
        if left:
            self.fail(f'{what}: temporary files are left: {left}')

    # ------------------------------------------------------------------ runs
    def run(self, case):
        self.d.start()
        getattr(self, 'run_' + case['op'])(case)

    def run_cli(self, c):
        kind, opts = c['kind'], c['opts']
        what = ' '.join(f'{k}={v!r}' for k, v in c.items() if k not in ('op',))
        with self.at('api') as where:
            self.files(where, kind, c['index'])
            self.stale(where, 'src', 'temp' if c['temp'] else None)
            kw = dict(index='index.json' if c['index'] else None, temp_dir='temp' if c['temp'] else None)
            self.d.quiet(self.d.api.extract, 'in.bin', 'src', options=dict(opts), **kw)
            out = {'abs': 'bin/p.out', 'rel': 'bin/p.out', 'bare': 'p.out'}[c['paths']]
            self.d.quiet(self.d.api.build, 'src', out, options=dict(opts), **kw)
        with self.at('cli') as where:
            self.files(where, kind, c['index'])
            self.stale(where, 'src', 'temp' if c['temp'] else None)

            def p(x):
                return {'abs': os.path.join(where, x), 'rel': os.path.join('.', x), 'bare': x}[c['paths']]
            argv = []
            for k, v in opts.items():
                argv += [f'--{k}'] if v is True else [f'--{k}', str(v)] if k != 'prefix' else [f'--{k}={v}']
            if c['temp']:
                argv += ['--temp', 'temp' if c['temp'] == 'rel' else os.path.join(where, 'temp')]
            if c['index']:
                argv += ['--index', 'index.json']
            if c['procs']:
                argv += ['--processes', str(c['procs'])]
            for cmd in (['-E', p('in.bin'), p('src')], ['-B', p('src'), p(out)]):
                code = self.main(cmd + argv)
                if code != 0:
                    self.fail(f'{cmd[0]} {what}: exit code {code}')
                if not c['temp']:
                    self.clean('cli', f'{cmd[0]} {what}')
                elif not os.path.isdir(os.path.join(where, 'temp')) or not os.listdir(os.path.join(where, 'temp')):
                    self.fail(f'{cmd[0]} {what}: the stages are not kept in the temporary folder given')
                elif os.path.exists(os.path.join(where, 'temp', 'старый.bsl')):
                    self.fail(f'{cmd[0]} {what}: the temporary folder was not cleared')
            if os.path.exists(os.path.join(where, 'src', 'старый.bsl')) != ('descent' in opts):
                self.fail(f'{what}: the sources folder was {"" if "descent" in opts else "not "}cleared')
        self.count(executions=4)
        self.equal(kind, self.d.at('w', 'api'), self.d.at('w', 'cli'), what)

    def run_update(self, c):
        what = ' '.join(f'{k}={v!r}' for k, v in c.items() if k != 'op')
        for mode in ('api', 'cli', 'all'):
            with self.at(mode) as where:
                self.files(where, c['kind'])
                self.d.quiet(self.d.api.extract, 'in.bin', 'src')
                if c['index'] and not c['missing']:
                    os.makedirs(os.path.dirname(os.path.abspath(c['index'])), exist_ok=True)
                    with open(c['index'], 'w', encoding='utf-8') as f:
                        json.dump(nest(TARGET[c['kind']], 'мой/модуль.bsl'), f, ensure_ascii=False)
                src = 'src' if c['src'] == 'rel' else os.path.join(where, 'src')
                if mode == 'api':
                    try:
                        self.d.quiet(self.d.pkg.update_index, src, c['index'], c['core'])
                        want = 0
                    except Exception:
                        want = 1
                    continue
                core = ['--core', c['core']] if c['core'] else []
                if mode == 'cli':
                    code = self.main(['-I', src] + (['--index', c['index']] if c['index'] else []) + core)
                else:
                    with open('p.json', 'w', encoding='utf-8') as f:
                        json.dump({'пр': dict(src=src, bin='x', **({'index': c['index']} if c['index'] else {}))}, f)
                    code = self.main(['-IA', 'p.json'] + core)
                    os.remove('p.json')
                if bool(code) != bool(want):
                    self.fail(f'{mode} {what}: exit code {code}, the function {"fails" if want else "does it"}')
        self.count(executions=3)
        for mode in ('cli', 'all'):
            self.equal(c['kind'], self.d.at('w', 'api'), self.d.at('w', mode), f'-I{"A" if mode == "all" else ""} {what}')

    def run_update_all(self, c):
        what = json.dumps(c, ensure_ascii=False)
        names = [f'прод{i}' for i in range(len(c['disable']))]
        for mode in ('api', 'cli'):
            with self.at(mode) as where:
                products = {}
                for i, name in enumerate(names):
                    fs.put(where, {f'src{i}/Form/Ф{i}/Form.json': '{}', f'src{i}/корень{i}.bin': '1'})
                    products[name] = dict(src=f'src{i}', bin=f'p{i}.bin', index='index.json' if c['shared'] else f'index{i}.json')
                    if c['disable'][i] is not None:
                        products[name]['disable'] = c['disable'][i]
                with open('products.json', 'w', encoding='utf-8') as f:
                    json.dump(products, f, ensure_ascii=False)
                if mode == 'cli':
                    code = [] if c['code'] is None else ['--index', names[c['code']]]
                    ret = self.main(['-IA', 'products.json'] + code + (['--core', c['core']] if c['core'] else []))
                    if ret:
                        self.fail(f'-IA {what}: exit code {ret}')
                    continue
                for i, name in enumerate(names):
                    if i == c['code'] or c['code'] is None and not c['disable'][i]:
                        self.d.quiet(self.d.pkg.update_index, f'src{i}', products[name]['index'], c['core'])
        self.count(executions=2)
        self.equal({}, self.d.at('w', 'api'), self.d.at('w', 'cli'), f'-IA {what}')

    def run_batch(self, c):
        what = json.dumps(c, ensure_ascii=False)
        shared = c.get('shared')
        names = [f'прод{i}' for i in range(len(c['products']))]
        for mode in ('api', 'cli'):
            with self.at(mode) as where:
                with open('products.json', 'w', encoding='utf-8') as f:
                    json.dump({n: self.params(where, i, p, shared) for i, (n, p) in enumerate(zip(names, c['products']))}, f,
                              ensure_ascii=False)
                for i, p in enumerate(c['products']):
                    with open(f'p{i}.bin', 'wb') as f:
                        f.write(self.blobs[p['kind']])
                    if p['index']:
                        with open(f'index{i}.json', 'w', encoding='utf-8') as f:
                            json.dump(nest(TARGET[p['kind']], f'core/модуль{i}.bsl'), f, ensure_ascii=False)
                    self.stale(where, self.src(i, shared), p['temp'])
                for cmd in ('-EA', '-BA'):
                    if cmd == '-BA':
                        for i in range(len(c['products'])):
                            os.remove(f'p{i}.bin')
                            # products are stamped with their code and version
                            if os.path.isdir(self.src(i, shared)):
                                with open(os.path.join(self.src(i, shared), 'version.bin'), 'w', encoding='utf-8') as f:
                                    f.write(f'1.0.{i}')
                    code = None if c['code'] is None else names[c['code']]
                    if mode == 'api':
                        self.batch_api(c, cmd, names, shared)
                    else:
                        ret = self.main([cmd, 'products.json'] + (['--index', code] if code else []))
                        if ret:
                            self.fail(f'{cmd} {what}: exit code {ret}')
                        self.clean('cli', f'{cmd} {what}')
                os.remove('products.json')
                for i in range(len(c['products'])):
                    if os.path.exists(f'p{i}.bin'):
                        os.rename(f'p{i}.bin', f'p{i}.out')
        self.count(executions=4 * len(names))
        self.equal({f'p{i}.out': p['kind'] for i, p in enumerate(c['products'])}, self.d.at('w', 'api'), self.d.at('w', 'cli'),
                   what)

    @staticmethod
    def src(i, shared):
        return 'src' if shared else f'src{i}'

    def params(self, where, i, p, shared):
        def at(x):
            return x if p['where'] == 'rel' else os.path.join(where, x)
        d = dict(src=at(self.src(i, shared)), bin=at(f'p{i}.bin'))
        if p['disable'] is not None:
            d['disable'] = p['disable']
        if p['temp']:
            d['temp'] = at(p['temp'])
        if p['index']:
            d['index'] = at(f'index{i}.json')
        if p['options'] == 'null':
            d['options'] = None
        elif p['options'] != 'none':
            d['options'] = p['options']
        return d

    def batch_api(self, c, cmd, names, shared):
        for i, p in enumerate(c['products']):
            if c['code'] is not None and c['code'] != i or c['code'] is None and p['disable']:
                continue
            options = dict(p['options']) if isinstance(p['options'], dict) else {}
            kw = dict(temp_dir=p['temp'], index=f'index{i}.json' if p['index'] else None)
            if cmd == '-EA':
                self.d.quiet(self.d.api.extract, f'p{i}.bin', self.src(i, shared), options=options, **kw)
            else:
                self.d.quiet(self.d.api.build, self.src(i, shared), f'p{i}.bin', options=dict(options, product=names[i]), **kw)

    def run_errors(self, c):
        with self.at('cli') as where:
            self.files(where, 'cf', True)
            self.d.quiet(self.d.api.extract, 'in.bin', 'src')
            os.mkdir('emptydir')
            for name, text in (('text.txt', 'просто текст'), ('list.json', '[1, 2]'), ('badtarget.json', json.dumps(nest(TARGET['cf'], 5))),
                               ('empty.bin', ''),
                               ('products.json', '{"п": {"src": "src", "bin": "in.bin", "disable": true, "index": "index.json"}}'),
                               ('nosrc.json', '{"п": {"temp": "t"}}'),
                               ('missing.json', '{"п": {"src": "нет", "bin": "нет.bin", "index": "нет.json"}}')):
                with open(name, 'w', encoding='utf-8') as f:
                    f.write(text)
            with open('cut.bin', 'wb') as f:
                f.write(self.blobs['cf'][:len(self.blobs['cf']) // 2])
            before = fs.tree(where)
            code = self.main(c['argv'])
            self.count(executions=1)
            what = ' '.join(c['argv'])
            if code == 0:
                self.fail(f'"{what}" fails with the exit code 0')
            after = fs.tree(where)
            for name, data in before.items():
                if after.get(name) != data:
                    self.fail(f'"{what}": the file {name} was {"changed" if name in after else "removed"} by a command that failed')

    def run_overlap(self, c):
        kind, cmd = c['kind'], c['cmd']
        what = json.dumps(c, ensure_ascii=False)
        with self.at('api') as where:
            self.files(where, kind)
            self.d.quiet(self.d.api.extract, 'in.bin', 'src', options={'descent': c['descent']})
            sources = fs.tree(os.path.join(where, 'src'))
            if cmd == '-B':
                p = v8conf.Product(DESC[kind])
                p.tree = v8conf.unpack(self.d.build(os.path.join(where, 'src'), os.path.join(where, 'o.bin'),
                                                     options={'product': 'п'} if c['mode'] == 'batch' else None))
        with self.at('cli') as where:
            os.makedirs('дело')
            os.makedirs('дел')
            os.symlink('дело', 'ссылка')
            real = c['src'].replace('ссылка', 'дело')
            if cmd == '-E':
                fs.put(where, {real: self.blobs[kind]})
            else:
                fs.put(os.path.join(where, real), {n: x for n, x in sources.items() if x is not None})
            if c.get('index'):
                fs.put(where, {c['index']: '{"Нет": {}}'})
            before = {n: x for n, x in fs.tree(where).items() if n.startswith(real) or n == c.get('index')}
            if c['mode'] == 'cli':
                argv = [cmd, c['src'], c['out']] + (['--temp', c['temp']] if c['temp'] is not None else [])
                argv += ['--descent', str(c['descent'])] if c['descent'] else []
                argv += ['--index', c['index']] if c.get('index') else []
            else:
                param = dict(zip(('bin', 'src') if cmd == '-E' else ('src', 'bin'), (c['src'], c['out'])))
                param.update({} if c['temp'] is None else {'temp': c['temp']}, options={'descent': c['descent']},
                             **({'index': c['index']} if c.get('index') else {}))
                fs.put(self.d.at('w'), {'products.json': json.dumps({'п': param})})
                argv = [cmd + 'A', self.d.at('w', 'products.json')]
            code = self.main(argv)
            self.count(executions=2)
            try:
                after = fs.tree(where) if os.path.isdir(where) else {}
            except OSError as err:
                self.fail(f'{what}: the exit code is {code}, what is left cannot be read: {str(err)[:100]}')
            for n, x in before.items():
                if x is not None and after.get(n) != x:
                    self.fail(f'{what}: the exit code is {code}, the file {n} the command was to read is '
                              + ('changed' if n in after else 'removed'))
            if code == 0 and cmd == '-E':
                out = os.path.normpath(c['out'].replace('ссылка', 'дело'))
                for n, x in sources.items():
                    if x is not None and after.get(os.path.normpath(os.path.join(out, n))) != x:
                        self.fail(f'{what}: the exit code is 0, the file {n} is missing or wrong')
            if code == 0 and cmd == '-B':
                got = after.get(os.path.normpath(c['out']), b'')
                diffs = p.compare(v8conf.unpack(got)) if got else ['it is missing']
                if diffs:
                    self.fail(f'{what}: the exit code is 0, the product is wrong: {diffs[:2]}')


CHECK = P21()
