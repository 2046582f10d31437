"""The sources change exactly where the product changes: extracting what was built from the sources gives the same sources
again; the same product stored in any other way, unpacked anywhere, gives the same sources; a change of one object changes
the files of that object only; the same JSON written in another way gives the same product, files that are no sources change nothing."""
import copy
import itertools
import json
import os

from mc import brace, cfmt, drive, fs, v8conf
from mc.core import Check
from mc.v8conf import TYPES, members, nested_types
from mc.forms import BUTTON, FIELD, GROUP, TABLE
from checks.P15 import FIX, SHARED, Space, full, in_order
from checks.P16 import P16, b64, places, put
from checks.P18 import at
from checks.P22 import P22, forests
from checks.P24 import P24
from checks.P26 import labelled

ROOTS = ['Configuration.json', 'ConfigurationExtension.json', 'ExternalDataProcessor.json', 'ExternalReport.json']
AUTO = {'auto_include': True}
# ways to store the same members
STORED = [
    dict(fmt=64), dict(order='name'), dict(order='back'), dict(order='odd'), dict(write=dict(times=(1, 2 ** 60))),
    dict(write=dict(data_split=(7, 100, 513))), dict(write=dict(data_split=(512,), order='rev')),
    dict(write=dict(toc_split=(24, 60))), dict(write=dict(toc_split=(12,), data_split=(1000,), order='inter', attr_split=(20, 3))),
    dict(write=dict(hexcase='upper', legacy_toc=True)), dict(write=dict(data_pad=0)), dict(write=dict(data_pad=4096, junk=b'\0' * 14)),
    dict(level=0), dict(level=9), dict(level=1, order='back', fmt=64, write=dict(data_split=(300,), toc_split=(24,))),
    dict(text='lf'), dict(text='nobom'), dict(inner=dict(data_split=(50, 9))),
    dict(inner=dict(times=(5, 6), order='rev', data_split=(100,))), dict(inner_order='back'),
]
# where the product is, where it is unpacked to, where the temporary files are
WHERE = ['с пробелом и кириллицей', 'a.b.c', 'Catalog', 'decode_stage_1', 'versions', 'src', 'text', '[x]*', '%s{0}', 'ver', "it's",
         '80316', 'form.id', 'include_core_Блок', '#', '~', '-', '--index', '😀', 'x' * 100, 'a/b/c/d', '$HOME', 'a;b', '1', 'Form/Form', '..a']
# ways to write the same JSON
SAVED = ['plain', 'ascii', 'tabs', 'crlf', 'eol', 'sorted', 'reversed', 'git', 'lines']
# what else may lie among the sources
STRAY = ['.DS_Store', 'README.md', '.gitkeep', '.git/config', 'Описание.txt', '.idea/x.xml', 'старый.bsl', 'docs/index.html', 'пусто/',
         'Catalog.json.orig', 'desktop.ini', 'x.bsl~', '.Catalog.json.swp']


def stored(tree, kinds, how):
    """the members of the product in a container laid out as told"""
    def textual(name, data):
        way = how.get('text')
        kind = kinds.get(name)
        if not way or kind not in ('brace', 'versions', 'configinfo'):
            return data
        if way == 'nobom':
            return data.removeprefix(v8conf.BOM)
        bom = v8conf.BOM if data.startswith(v8conf.BOM) else b''
        return bom + brace.write(v8conf.read_brace(data), '\n', short_nl=False).encode()

    def pick(names, order):
        return {'name': sorted(names), 'back': sorted(names, reverse=True), 'odd': names[1::2] + names[0::2]}.get(order, names)
    files = []
    fmt = cfmt.F64 if how.get('fmt') == 64 else cfmt.F32
    level = how.get('level', 6)

    def deflate(data):
        c = v8conf.zlib.compressobj(level, v8conf.zlib.DEFLATED, -15)
        return c.compress(data) + c.flush()
    for n in pick(v8conf.tops(tree), how.get('order')):
        if n in tree:
            files.append((n, deflate(textual(n, tree[n]))))
        else:
            sub = [(k[len(n) + 1:], textual(k, v)) for k, v in sorted(tree.items()) if k.startswith(n + '/')]
            sub = pick(sub, how.get('inner_order'))
            files.append((n, deflate(cfmt.write_container(cfmt.F32, sub, **how.get('inner', {})))))
    return cfmt.write_container(fmt, files, **how.get('write', {}))


def rewritten(data, way):
    if way in ('sorted', 'reversed'):
        def walk(x):
            if isinstance(x, dict):
                return {k: walk(x[k]) for k in sorted(x, reverse=way == 'reversed')}
            return [walk(y) for y in x] if isinstance(x, list) else x
        return json.dumps(walk(data), ensure_ascii=False, indent=2).encode()
    text = json.dumps(data, ensure_ascii=way == 'ascii', indent={'plain': None, 'tabs': '\t'}.get(way, 2))
    if way == 'eol':
        text = '\n' + text + '\n'
    return (text.replace('\n', '\r\n') if way == 'crlf' else text).encode()


def ordered(desc):
    """the same with every kind the objects may hold in the tables of contents, held or not"""
    desc = copy.deepcopy(desc)

    def walk(o):
        if o.get('c'):
            o['order'] = nested_types(o['t'])
        for c in o.get('c', ()):
            walk(c)
    for o in desc.get('objs', ()):
        walk(o)
    kinds = []
    for o in desc.get('objs', ()):
        kinds += [o['t']] * (o['t'] not in kinds)
    return dict(desc, order=kinds, zg=sorted({TYPES[k]['group'] for k in kinds if 'group' in TYPES[k]}))


def holders(elems, prefix=()):
    for i, e in enumerate(elems):
        if e.get('c'):
            yield (*prefix, i)
            yield from holders(e['c'], (*prefix, i))


def kids(elems, path):
    for i in path:
        elems = elems[i]['c']
    return elems


class P27(Check):
    id = 'P27'
    chunk = 8
    rule = 'products (every kind, names, templates, forms, tables of contents, nesting) extracted, built and extracted again; ' \
           'x ways to store the members; x places; permutations of objects; one thing changed at a time; JSON rewritten; ' \
           'files that are no sources put at every level; with and without --auto_include'
    bound = {'quick': 'every 2nd to 4th product of the largest families', 'thorough': 'all of them; <=4 objects permuted'}

    def setup(self):
        self.d = drive.Driver()

    # -- spaces --------------------------------------------------------------------------------------------------
    def spaces(self, tier):
        deep = tier == 'thorough'
        return [('again', self.all_again(deep)), ('stored', self.all_stored(deep)), ('where', self.all_where()),
                ('order', self.all_order(deep)), ('local', self.all_local(deep)), ('elements', self.all_elements(deep)), ('stray', self.all_stray(deep)), ('saved', self.all_saved(deep))]

    @staticmethod
    def full_products():
        yield from P16.products()
        # forms of both kinds with elements, attributes, commands
        attrs = [('Объект', 1), ('Список', 2, [('Имя', 1), ('Код', 2)], 0)]
        form = dict(attrs=attrs, cmds=[('Выполнить', 1)], params=['П'], elems=[
            dict(k=GROUP, n='Г', c=[dict(k=FIELD, n='Поле', link=['Список', 'Имя']), dict(k=BUTTON, n='Кн', cmd='Выполнить')]),
            dict(k=TABLE, n='Т', link=['Список'], c=[dict(k=FIELD, n='П1')]), dict(k=GROUP, n='include_core_Блок', c=[dict(k=FIELD, n='П2')])])
        yield dict(kind='cf', objs=[dict(t='CommonForm', n='Форма', form=form)])
        for owner in ('Catalog', 'Document', 'epf'):
            # attributes of the owner's own type, one of them with columns
            one = dict(form, attrs=[attrs[0] + ([], 'parent'), attrs[1], ('Ещё', 3, [('К', 1)], 'parent')])
            if owner == 'epf':
                yield dict(kind='epf', ver='803', objs=[dict(t='Form', n='Форма', form=one)])
            else:
                yield dict(kind='cf', objs=[dict(t=owner, n='Владелец', c=[dict(t=TYPES[owner]['form'], n='Форма', form=one)])])
        of = dict(pages=['А', 'Б'], attrs=[('Объект', 1), ('Список', 7)], elems=[
            dict(k=7, n='Э1', link='Объект'), dict(k=1, n='Э2', page=1),
            dict(k='Panel', n='П', page=1, pages=['В', 'Г'], c=[dict(k=7, n='Э3', link='Список', page=1)])])
        yield dict(kind='epf', ver='803', objs=[dict(t='Form', n='Форма', uf=0, form=of)])

    def all_again(self, deep):
        def both(gen, every=1):
            for i, x in enumerate(gen):
                if i % every == 0:
                    yield dict(desc=x)
                    yield dict(desc=x, opt=AUTO)
        yield from ({'fixture': f, 'opt': o} for f in sorted(os.listdir(FIX)) for o in ({}, AUTO))
        yield from both(self.full_products())
        for gen, every in ((Space.names(), 1), (Space.templates(), 1), (Space.roots(), 1), (Space.forms(), 1), (Space.toc(), 2),
                           (Space.deep(4), 1), (Space.many(2), 3), (Space.objects(False), 4)):
            yield from both(gen, 1 if deep else every)
        for gen in (P22.all_shapes(), P22.all_links(False), P22.all_lists(False)):
            yield from both((dict(kind='cf', objs=[dict(t='CommonForm', n='Форма', form=x)]) for x in gen), 1 if deep else 3)
        for x in itertools.chain(P24.all_kinds(), P24.all_forests(3, 2)):
            ver = x.get('ver', 27)
            for o in ({}, AUTO):
                yield dict(desc=P24.product(x, ver), opt=o)

    def all_stored(self, deep):
        for x in self.full_products():
            for how in STORED:
                for o in ({}, AUTO):
                    yield dict(desc=x, how=how, opt=o)

    def all_where(self):
        base = list(self.full_products())
        few = [next(x for x in base if x['kind'] == k and x['objs' if k != 'cfe' else 'm']) for k in ('cf', 'cfe', 'epf', 'erf')]
        few += base[-5:]
        for x in few:
            for w in WHERE:
                for part in ('in', 'src', 'temp', 'all', 'out', 'relative', 'slash'):
                    yield dict(desc=x, where=w, part=part)

    def all_order(self, deep):
        for t in v8conf.TOP:
            kinds = nested_types(t)
            names = ['Б', 'а', 'Я1', 'Я10'] if deep else ['Б', 'а', 'Я1']
            for p in itertools.permutations(names):
                yield dict(a=dict(kind='cf', objs=[dict(t=t, n=n, **full(t)) for n in sorted(names)]),
                           b=dict(kind='cf', objs=[dict(t=t, n=n, **full(t)) for n in p]), opt=AUTO)
            for k in kinds:
                for p in itertools.permutations(names):
                    def own(order):
                        return dict(kind='cf', objs=[dict(t=t, n='Имя', c=[dict(t=k, n=n, **full(k)) for n in order])])
                    yield dict(a=own(sorted(names)), b=own(p), opt=AUTO)

    def all_local(self, deep):
        for desc in self.full_products():
            spots = list(self.objects(desc))
            for path in [()] + spots:
                for what in ('cmt', 'syn', 'type'):
                    yield dict(desc=desc, path=path, what=what)
            for i, (path, how) in enumerate(places(desc)):
                yield dict(desc=desc, path=path, how=how, what='payload')
            yield dict(desc=desc, path=(), what='id')
            for path in spots:
                for what in ('removed', 'renamed', 'id'):
                    yield dict(desc=desc, path=path, what=what)

    def all_saved(self, deep):
        for x in self.full_products():
            for way in SAVED:
                for o in ({}, AUTO):
                    yield dict(desc=x, saved=way, opt=o)
        for f in sorted(os.listdir(FIX)):
            for way in SAVED:
                yield dict(fixture=f, saved=way, opt={})

    @staticmethod
    def all_elements(deep):
        """the elements of one group in two different orders, one of them gone"""
        for n in range(2, 5 if deep else 4):
            for f in forests(n, (GROUP, TABLE, FIELD)):
                elems = labelled(f)
                for path in [()] + list(holders(elems)):
                    count = len(kids(elems, path))
                    for order in itertools.permutations(range(count)):
                        for area in ('', 'include_'):
                            if order != tuple(range(count)):
                                yield dict(elems=elems, path=path, order=order, area=area)
                    for gone in range(count if count > 1 else 0):
                        yield dict(elems=elems, path=path, order=[i for i in range(count) if i != gone], area='')

    def all_stray(self, deep):
        for x in self.full_products():
            # a web service reference keeps a whole folder of files of any names
            if any(o['t'] == 'WSReference' for o in x.get('objs', ())):
                continue
            for name in STRAY:
                for o in ({}, AUTO):
                    for at in ('root', 'kind', 'object', 'all'):
                        yield dict(desc=x, stray=name, at=at, opt=o)

    @staticmethod
    def objects(desc, prefix=()):
        for key in ('c', 'objs'):
            for i, o in enumerate(desc.get(key, [])):
                yield (*prefix, key, i)
                yield from P27.objects(o, (*prefix, key, i))

    # -- running -------------------------------------------------------------------------------------------------
    def sources(self, blob, opt, src='src', **kw):
        return self.steady(self.d.extract(blob, src=src, options=opt or None, **kw))

    @staticmethod
    def steady(path):
        """the sources without what describes the storage: lists of members with the
        identifiers of their versions and checksums (P25)"""
        out = fs.tree(path)
        for name in ROOTS:
            if name in out:
                data = json.loads(out[name])
                data.pop('versions', None)
                data.pop('configinfo', None)
                out[name] = json.dumps(data, ensure_ascii=False, indent=2).encode()
        return out

    def alike(self, a, b, what):
        diff = fs.diff(a, b)
        if diff:
            self.fail(f'{what}: {diff}')

    def product(self, case):
        if 'fixture' in case:
            with open(os.path.join(FIX, case['fixture']), 'rb') as f:
                return None, f.read()
        p = v8conf.Product(case['desc'])
        return p, v8conf.pack(p.tree)

    def run(self, case):
        self.d.start()
        self.count(executions=2, transitions=1)
        if 'how' in case and 'what' not in case:
            return self.stored(case)
        if 'where' in case:
            return self.where(case)
        if 'what' in case:
            return self.local(case)
        if 'elems' in case:
            return self.elements(case)
        if 'stray' in case:
            return self.stray(case)
        if 'saved' in case:
            return self.saved(case)
        if 'a' in case:
            one, two = (self.sources(v8conf.pack(v8conf.Product(case[k]).tree), case['opt'], src=k) for k in 'ab')
            return self.alike(one, two, 'the same objects in another order')
        opt = case.get('opt')
        p, blob = self.product(case)
        one = self.sources(blob, opt)
        two = self.sources(self.d.build(options=opt or None), opt, src='src2')
        if opt and '"uf": 0' in json.dumps(case.get('desc')) or case.get('fixture') in SHARED:
            # controls of ordinary forms are numbered anew and put in the order of the pages, once; so become the shared
            # areas the two files hold in two different states
            one, two = two, self.sources(self.d.build(src='src2', options=opt), opt, src='src3')
        self.alike(one, two, 'sources of the product built from the sources')

    def stored(self, case):
        p, blob = self.product(case)
        one = self.sources(blob, case['opt'])
        two = self.sources(stored(p.tree, p.kinds, case['how']), case['opt'], src='src2')
        self.alike(one, two, f'the same product stored as {case["how"]}')

    def where(self, case):
        """one thing at a time in a place with an unusual name"""
        p, blob = self.product(case)
        w, part = case['where'], case['part']
        one = self.sources(blob, None)
        made = self.d.build()
        base = self.d.at('w', 'там', w)
        os.makedirs(base)
        name = os.path.join(base if part in ('in', 'all') else self.d.at('w'), 'in2.bin')
        src = os.path.join(base if part in ('src', 'all', 'slash') else self.d.at('w'), 'src2')
        temp = os.path.join(base if part in ('temp', 'all') else self.d.at('w'), 'temp2')
        out = os.path.join(base if part in ('out', 'all') else self.d.at('w'), 'out2.bin')
        if part == 'in':
            name, src = os.path.join(base, w.replace('/', '_')), src
        if part == 'src':
            src = os.path.join(base, w.replace('/', '_'))
        with open(name, 'wb') as f:
            f.write(blob)
        here = os.getcwd()
        try:
            if part == 'relative':
                os.chdir(base)
                name, src, temp, out = (os.path.relpath(x) for x in (name, src, temp, out))
            if part == 'slash':
                src += '/'
                temp += '/'
            self.d.quiet(self.d.api.extract, name, src, temp_dir=temp)
            two = self.steady(src)
            self.alike(one, two, f'{part} in {w!r}')
            self.d.quiet(self.d.api.build, src, out, temp_dir=temp)
            with open(out, 'rb') as f:
                again = v8conf.unpack(f.read())
        finally:
            os.chdir(here)
        diffs = p.compare(again)
        if diffs:
            self.fail(f'{part} in {w!r}: ' + '; '.join(diffs[:4]))

    def local(self, case):
        desc, what, path = case['desc'], case['what'], case['path']
        opt = AUTO if what in ('removed', 'renamed', 'id') else {}
        desc = ordered(desc)
        if what == 'payload' and case['how'] in ('b64', 'bytes'):
            desc = put(desc, path, b64(b'1' * 200))
        if what == 'removed':
            # not the last of its kind: the owner says which kinds it holds
            node = desc
            for x in path[:-1]:
                node = node[x]
            t = node[path[-1]]['t']
            node.append(dict(t=t, n='Остаётся', **full(t)))
        first = v8conf.Product(desc)
        base = self.sources(v8conf.pack(first.tree), opt)
        other, obj = copy.deepcopy(desc), path
        if what == 'payload':
            text = 'Другой текст\r\n'
            value = text if case['how'] == 'text' else b64(b'2' * 200) if case['how'] in ('b64', 'bytes') else \
                P16.other(desc, path, case['how'])
            other = put(desc, path, value)
            obj = path[:next((i for i in range(len(path), 0, -1) if isinstance(path[i - 1], int)), 0)]
        else:
            node = other
            for x in path[:-1]:
                node = node[x]
            o = node[path[-1]] if path else other
            if what == 'cmt':
                o['cmt'] = (o.get('cmt', '') + ' другой').strip()
            elif what == 'syn':
                o['syn'] = {'ru': 'Другой', 'en': 'Other'}
            elif what == 'type':
                # identifiers of the object's own types
                o['own'] = 'другие'
            elif what == 'removed':
                del node[path[-1]]
            elif what == 'renamed':
                o['n'] = o['n'] + 'Я'
            elif what == 'id':
                o['u'] = v8conf.uid('другой')
        second = v8conf.Product(other)
        if first.tree == second.tree:
            return
        two = self.sources(v8conf.pack(second.tree), opt, src='src2')
        folder = self.folder(desc, obj)
        ours = {folder}
        if what == 'renamed':
            ours.add(self.folder(other, obj))
        changed = sorted(k for k in set(base) | set(two) if base.get(k, 0) != two.get(k, 0))
        # nested objects are other objects, too
        deep = what in ('removed', 'renamed')
        beside = [k for k in changed if not any(k.startswith(f + '/') if deep else os.path.dirname(k) == f for f in ours)]
        if beside:
            self.fail(f'{what} of {folder or "the product"} changed {beside[:4]} too: ' + fs.diff({k: base.get(k) for k in beside}, {k: two.get(k) for k in beside}))
        if not changed:
            self.fail(f'{what} of {folder or "the product"} changed nothing in the sources')
        if what == 'payload' and len(changed) > 1:
            self.fail(f'one payload of {folder or "the product"} changed {changed[:4]}')

    def elements(self, case):
        """what is kept of every element stays as it is; where the form is not divided into areas, in the same order"""
        other = copy.deepcopy(case['elems'])
        some = kids(other, case['path'])
        some[:] = [some[i] for i in case['order']]
        texts = []
        for src, elems in (('one', case['elems']), ('two', other)):
            if case['area']:
                elems = [dict(k=GROUP, n=case['area'] + 'Блок', id=90, c=elems)]
            form = dict(attrs=[('Объект', 1)], elems=elems)
            tree = self.sources(v8conf.pack(v8conf.Product(dict(kind='cf', objs=[dict(t='CommonForm', n='Форма', form=form)])).tree), {}, src=src)
            out = {}
            for name, data in tree.items():
                if name.endswith('.elem.json'):
                    data = json.loads(data)
                    for part, value in data.items():
                        if part != 'tree':
                            # elements of an area come in their order in the form
                            out[name, part] = list(value.items()) if isinstance(value, dict) and not case['area'] else value
                else:
                    out[name] = data
            texts.append(out)
        one, two = texts
        if set(one) != set(two):
            self.fail(f'order {case["order"]}: files {sorted(set(map(str, one)) ^ set(map(str, two)))}')
        for part in one:
            a, b = one[part], two[part]
            if part[-1] == 'data' and len(case['order']) < len(kids(case['elems'], case['path'])):
                left = {k for k, v in b}
                a = [x for x in a if x[0] in left]
            if a != b:
                self.fail(f'order {case["order"]} of elements changes {part}: {str(a)[:200]} -> {str(b)[:200]}')

    def stray(self, case):
        """files that are no sources of anything"""
        p, blob = self.product(case)
        opt, name = case['opt'], case['stray']
        src = self.d.extract(blob, options=opt or None)
        for d, dirs, files in list(os.walk(src)):
            depth = len(os.path.relpath(d, src).split('/')) if d != src else 0
            where = 'object' if depth and depth % 2 == 0 else 'kind' if depth else 'root'
            if case['at'] in (where, 'all'):
                path = os.path.join(d, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                if not name.endswith('/'):
                    with open(path, 'w') as f:
                        f.write('что-то')
        try:
            out = v8conf.unpack(self.d.build(options=opt or None))
        except Exception as err:
            # a folder that is no object is refused by its name
            if '/' in name and name.split('/')[0] in str(err):
                return
            raise
        diffs = (v8conf.Product(in_order(case['desc'])) if opt else p).compare(out)
        if diffs:
            self.fail(f'{name} among the sources: ' + '; '.join(diffs[:4]))

    def saved(self, case):
        """the same sources as another program saves them"""
        p, blob = self.product(case)
        opt, way = case['opt'], case['saved']
        src = self.d.extract(blob, options=opt or None)
        one = v8conf.unpack(self.d.build(options=opt or None))
        for d, dirs, files in os.walk(self.d.at('w'), topdown=False):
            if not d.startswith(src) and not d.startswith(self.d.at('w', 'core')):
                continue
            for f in files:
                path = os.path.join(d, f)
                with open(path, 'rb') as x:
                    data = x.read()
                if f.endswith('.json') and way not in ('git', 'lines'):
                    data = rewritten(json.loads(data.decode()), way)
                elif way == 'lines' and f.endswith(('.json', '.bsl')):
                    data = data.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')
                os.remove(path)
                with open(path, 'wb') as x:
                    x.write(data)
            if way == 'git' and not os.listdir(d):
                os.rmdir(d)
        two = v8conf.unpack(self.d.build(options=opt or None, out='out2.bin'))
        diff = fs.diff(*({k: v for k, v in x.items() if k not in ('versions', 'configinfo')} for x in (one, two)))
        if diff:
            self.fail(f'the sources saved as {way!r} make another product: {diff}')

    @staticmethod
    def folder(desc, path):
        out, node = [], desc
        for x in path:
            node = node[x]
            if isinstance(x, int):
                out += [node['t'], node['n']]
        return '/'.join(out)


CHECK = P27()
