"""Compatibility mode, product version stamps and the check of the sources' version: every product kind x where the
values are given (extraction, build, sources, product file, version file) x comments; nothing else changes."""
import copy
import itertools
import json
import os

from mc import drive, fs, v8conf
from mc.core import Check
from mc.v8conf import members

ROOT = {'cf': 'Configuration', 'cfe': 'ConfigurationExtension', 'epf': 'ExternalDataProcessor',
        'erf': 'ExternalDataProcessor'}


def stamped(comment, value):
    i = comment.find('ver:')
    return comment if i < 0 else comment[:i + 4] + value


class P19(Check):
    id = 'P19'
    chunk = 8
    rule = 'product kind x compatibility mode in the product / given on extraction / edited in the sources / given on ' \
           'build; x version file x product code x comments of the product and of its processings; x version of the tool ' \
           'recorded in the sources'
    bound = {'quick': '4 values each', 'thorough': '6 values each, two objects'}

    COMMENTS = ['', 'ver:', 'текст', 'текст ver:', 'ver:1.2', 'текст ver:старая:1.2.3', 'Ver:1', 'ver: 1 ver:2', 'версия ver',
                'ver', 'с ""кавычками"" ver:1']

    def setup(self):
        self.d = drive.Driver()
        from v8unpack.version import __version__
        self.version = __version__

    def spaces(self, tier):
        deep = tier == 'thorough'
        return [('compat', self.compat(deep)), ('stamps', self.stamps(deep)), ('reuse', self.reuse(deep)),
                ('sources', self.sources(deep))]

    @staticmethod
    def compat(deep):
        some = [None, '80306', '80316', '1'] + (['80424', '802', ''] if deep else [])
        for kind in ('cf', 'cfe', 'epf'):
            for orig in ('80316', '80310', '802', '0'):
                for on_extract, in_sources, on_build in itertools.product(some, repeat=3):
                    if kind == 'epf' and in_sources:
                        continue
                    yield dict(op='compat', kind=kind, orig=orig, e=on_extract, s=in_sources, b=on_build)

    def stamps(self, deep):
        for kind in ('cf', 'cfe', 'epf', 'erf'):
            for comment in self.COMMENTS:
                for inner in self.COMMENTS if deep else ('', 'ver:', 'дп ver:5'):
                    for version in (None, '1.0.7', '2.1', 'вер 3') + (('',) if deep else ()):
                        for product in (None, 'saby_83'):
                            for out in ('out.bin', 'sub/имя.epf'):
                                for objects in ([], ['DataProcessor'], ['Catalog', 'DataProcessor']) if kind in (
                                        'cf', 'cfe') else ([],):
                                    if not objects and inner:
                                        continue
                                    yield dict(op='stamp', kind=kind, cmt=comment, inner=inner, version=version,
                                               product=product, out=out, objects=objects)

    def reuse(self, deep):
        """two products one after another with the same options, in one process"""
        for a, b in itertools.product(('cf', 'cfe', 'epf'), repeat=2):
            for va, vb in itertools.product((None, '1.0.7', '2.0.0'), repeat=2):
                for ver in ('802', '803'):
                    for options in ({}, {'descent': None}):
                        yield dict(op='reuse', kinds=[a, b], versions=[va, vb], ver=ver, options=options)

    def sources(self, deep):
        major, minor, patch = (int(x) for x in self_version().split('.'))
        near = range(-2, 3) if deep else range(-1, 2)
        for kind in ROOT:
            for a, b, c in itertools.product(near, near, near):
                v = [major + a, minor + b, patch + c]
                if min(v) >= 0:
                    yield dict(op='source', kind=kind, v='.'.join(map(str, v)))
            for v in (f'{major}{minor}.0', f'{major}.{minor}', '', f'{major}.{minor}0.1', f'{major}0.{minor}.1', 'a.b.c',
                      f'{major}.{minor}.1.2'):
                yield dict(op='source', kind=kind, v=v)

    def run(self, case):
        return getattr(self, 'run_' + case['op'])(case)

    def edit(self, src, kind, func):
        name = os.path.join(src, ROOT[kind] + '.json')
        with open(name, encoding='utf-8') as f:
            data = json.load(f)
        func(data)
        with open(name, 'w', encoding='utf-8') as f:
            json.dump(data, f, ensure_ascii=False)
        return data

    def check(self, want, out, what):
        diffs = v8conf.Product(want).compare(out)
        if diffs:
            self.fail(f'{what}: ' + '; '.join(diffs[:3]))

    def run_compat(self, c):
        desc = dict(kind=c['kind'], objs=[dict(t='Catalog', n='С', m=['obj'])] if c['kind'] != 'epf' else
                    [dict(t='Form', n='Ф')], m=['app'] if c['kind'] != 'epf' else ['obj'], compat=c['orig'])
        self.d.start()
        src = self.d.extract(v8conf.pack(v8conf.Product(desc).tree), options=None if c['e'] is None else {'version': c['e']})
        if c['kind'] != 'epf':
            value = self.edit(src, c['kind'], lambda x: None)['compatibility_version']
            if value != (c['e'] if c['e'] is not None else c['orig']):
                self.fail(f'compatibility mode {c["orig"]}, extracted with {c["e"]}: the sources say {value}')
            if c['s'] is not None:
                self.edit(src, c['kind'], lambda x: x.update(compatibility_version=c['s']))
        out = v8conf.unpack(self.d.build(options=None if c['b'] is None else {'version': c['b']}))
        want = dict(desc)
        for v in (c['e'], c['s'], c['b']):
            if v is not None:
                want['compat'] = v
        self.count(executions=2, transitions=len(out))
        self.check(want, out, f'compatibility mode {c["orig"]}, extraction {c["e"]}, sources {c["s"]}, build {c["b"]}')

    def describe(self, c):
        return dict(kind=c['kind'], cmt=c['cmt'], objs=[
            dict(t=t, n='Имя', cmt=c['inner'], m=members(t)) for t in c['objects']])

    def want(self, c, version, file_name, product):
        w = copy.deepcopy(self.describe(c))
        if version and c['kind'] != 'cf':
            w['cmt'] = stamped(w['cmt'], f'{file_name}:{version}')
        for o in w['objs']:
            if version and o['t'] == 'DataProcessor':
                o['cmt'] = stamped(o['cmt'], version)
        if c['kind'] == 'cfe' and version is not None:
            w['pv'] = f'{product}_{version}' if product else version
        return w

    def run_stamp(self, c):
        self.d.start()
        tree = v8conf.Product(self.describe(c)).tree
        src = self.d.extract(v8conf.pack(tree))
        version = c['version']
        if version is not None:
            with open(os.path.join(src, 'version.bin'), 'w', encoding='utf-8') as f:
                f.write(version)
        elif c['kind'] == 'cfe':
            # an extension comes with its version, in a file
            with open(os.path.join(src, 'version.bin'), encoding='utf-8') as f:
                version = f.read()
            if version != '1.0.1':
                self.fail(f'version of the extension is extracted as {version!r} instead of 1.0.1')
        options = {'product': c['product']} if c['product'] else {}
        out = v8conf.unpack(self.d.build(options=options, out=c['out']))
        self.count(executions=2, transitions=len(out))
        want = self.want(c, version, os.path.basename(c['out']), c['product'])
        self.check(want, out, f'comment {c["cmt"]!r} ({c["inner"]!r}), version {version!r}, product {c["product"]!r}')
        # stamping what is stamped changes nothing but the product code in the version
        src = self.d.extract(v8conf.pack(out), src='src2')
        if version is not None:
            with open(os.path.join(src, 'version.bin'), 'w', encoding='utf-8') as f:
                f.write(version)
        self.check(want, v8conf.unpack(self.d.build(src='src2', options=options, out=c['out'])), 'stamped twice')

    def run_reuse(self, c):
        self.d.start()
        options = dict(c['options'])
        wants = []
        for i, kind in enumerate(c['kinds']):
            d = dict(kind=kind, cmt='ver:0', inner='ver:0', objects=['DataProcessor'] if kind != 'epf' else [],
                     ver=c['ver'] if kind != 'cfe' else '803')
            desc = dict(self.describe(d), ver=d['ver'])
            self.d.write('in.bin', v8conf.pack(v8conf.Product(desc).tree))
            self.d.quiet(self.d.api.extract, self.d.at('w', 'in.bin'), self.d.at('w', f'src{i}'), options=options)
            version = c['versions'][i]
            name = self.d.at('w', f'src{i}', 'version.bin')
            if version is None and os.path.exists(name):
                version = '1.0.1'
            if version is not None:
                with open(name, 'w', encoding='utf-8') as f:
                    f.write(version)
            wants.append(dict(self.want(d, version, f'o{i}.bin', None), ver=d['ver']))
        for i in range(len(wants)):
            self.d.quiet(self.d.api.build, self.d.at('w', f'src{i}'), self.d.at('w', f'o{i}.bin'), options=options)
        for i, w in enumerate(wants):
            with open(self.d.at('w', f'o{i}.bin'), 'rb') as f:
                self.check(w, v8conf.unpack(f.read()), f'product {i} of {c["kinds"]} built with the same options')
        self.count(executions=4)
        if options != c['options']:
            self.fail(f'options of the caller were changed: {options}')

    def run_source(self, c):
        self.d.start()
        desc = dict(kind=c['kind'], objs=[dict(t='Catalog', n='С', m=['obj'])] if c['kind'][0] == 'c' else [])
        src = self.d.extract(v8conf.pack(v8conf.Product(desc).tree))
        was = {}
        self.edit(src, c['kind'], lambda x: was.update(v=x.get('v8unpack')) or x.update(v8unpack=c['v']))
        if was['v'] != self.version:
            self.fail(f'the sources record the version {was["v"]} of the tool instead of {self.version}')
        before = fs.tree(src)
        try:
            out = self.d.build()
        except Exception:
            out = None
        self.count(executions=2)
        parts = c['v'].split('.')
        good = len(parts) == 3 and parts[:2] == self.version.split('.')[:2]
        if good != (out is not None):
            self.fail(f'sources of the version {c["v"]} are {"refused" if good else "built"} by the version {self.version}')
        if out is None and os.path.exists(self.d.at('w', 'out.bin')):
            self.fail('a product was written for sources of another version')
        if fs.tree(src) != before:
            self.fail('the sources were changed')
        if good:
            self.check(desc, v8conf.unpack(out), f'sources of the version {c["v"]}')


def self_version():
    from v8unpack.version import __version__
    return __version__


CHECK = P19()
