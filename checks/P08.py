"""Every form-element tree of fields, groups and panels up to the node bound with include_/includr_ names on any
of its groups and panels: splitting it puts each include branch (tree and data, relative to the branch) in the
documented file and nothing of it in the form's file; joining gives the element document back."""
import copy
import itertools
import json
import os
import posixpath

from mc import codeinc, env, fs
from mc.core import Check

FORM = 'CommonForm/Форма/CommonForm.elem.json'
FORM2 = 'CommonForm/Другая/CommonForm.elem.json'


def is_area(name):
    return name[:8] in ('include_', 'includr_')


def build(forest, style):
    """forest: [[kind, areaname|None, page, children]] -> (tree, data) as the form decoders produce them.
    style 'pages': every element of a panel (and of the form) lies on a page and panels own page records;
    style 'flat' : managed forms, plain nesting."""
    data = {}
    counter = itertools.count()

    def rec(key, kind):
        return {'id': str(next(counter)), 'ver': 27, 'raw': [kind, {'ключ': key.split('/')[-1]}, ['"x"', []]]}

    def pages_of(path, names, data):
        for n in names:
            data['/'.join(x for x in (path, n) if x)] = {'raw': ['стр', n], 'info': [n]}
        data['/'.join(x for x in (path, '-pages-') if x)] = list(names)

    def walk(nodes, path, inarea):
        tree = []
        for i, (kind, area, page, children) in enumerate(nodes):
            name = area or f'{kind}{next(serial)}'
            page = page if style != 'flat' else None
            key = '/'.join(x for x in (path, page, name) if x)
            data[key] = rec(key, kind)
            elem = dict(name=name, type=kind)
            if style == 'pages':
                elem['page'] = page
            below = '/'.join(x for x in (path, page, name.replace('includr_', 'include_')) if x)
            if kind == 'Panel':
                pages_of(below, PAGES, data)
            if kind in ('Panel', 'Group'):
                elem['child'] = walk(children, below, inarea or bool(area))
            if style == 'auto':   # pages are nodes of the tree
                if kind == 'Panel':
                    elem['child'] = by_page(elem['child'], children)
            tree.append(elem)
        return tree

    def by_page(tree, nodes):
        return [dict(name=p, type='Page', child=[e for e, n in zip(tree, nodes) if n[2] == p]) for p in PAGES]
    serial = itertools.count(1)
    if style != 'flat':
        pages_of('', PAGES, data)
    tree = walk(forest, '', False)
    if style == 'auto':
        tree = by_page(tree, forest)
    return tree, data


PAGES = ['Стр1', 'Стр2']


def reference_split(doc, here, remap):
    """-> {(dir, file): doc}, independent of the implementation: move every key below the area"""
    doc = copy.deepcopy(doc)
    out = {}

    def walk(tree, path):
        for elem in tree:
            pre = '/'.join(x for x in (path, elem.get('page')) if x)
            key = '/'.join(x for x in (pre, elem['name']) if x)
            if is_area(elem['name']):
                stem = '/'.join(x for x in (pre, 'include_' + elem['name'][8:]) if x)
                moved = {}
                for k in list(doc['data']):
                    if k.startswith(stem + '/'):
                        moved[k[len(pre) + 1:] if pre else k] = doc['data'].pop(k)
                part = dict(data=moved, tree=elem['child'])
                elem['child'] = 'В отдельном файле'
                if elem['name'].startswith('include_'):
                    d, f = codeinc.target(elem['name'][8:], here, remap)
                    out[posixpath.normpath(d), f[:-4] + '.elem.json'] = part
                else:
                    d, f = codeinc.target(elem['name'][8:], here, remap)
                    out['readonly', posixpath.normpath(d), f[:-4] + '.elem.json'] = part
            elif elem.get('child'):
                walk(elem['child'], key)
    walk(doc['tree'], '')
    return doc, out


SETUPS = {
    'plain': (None, 'CommonForm/Форма', 'CommonForm.elem.json'),
    'moved': ({'CommonForm': {'Форма': {'CommonForm.elem.json': 'shared/Ф.elem.json'}}}, '../shared', 'Ф.elem.json'),
    'remap': ({'Области include': {'core_П': 'other_З'}}, 'CommonForm/Форма', 'CommonForm.elem.json'),
}


class P08(Check):
    id = 'P08'
    chunk = 16
    rule = 'all ordered forests of Field/Group/Panel elements up to the node bound x area names x page placement x ' \
           'element addressing style x redirection'
    bound = {'quick': '<=4 nodes, at most 2 areas', 'thorough': '<=5 nodes, at most 3 areas'}

    def setup(self):
        from v8unpack.organizer_file import OrganizerFile
        self.org = OrganizerFile

    def shapes(self, n, style, names, kinds):
        leaves = [['Field', None, 'Стр1', []]]
        inner = []
        for kind in kinds:
            for nm in [None] + names:
                inner.append(lambda c, kind=kind, nm=nm: [kind, nm, 'Стр1', c])
        if style != 'flat':
            leaves.append(['Field', None, 'Стр2', []])
            inner.append(lambda c: [kinds[0], names[0], 'Стр2', c])
        for k in range(1, n + 1):
            for f in codeinc.forests(k, leaves, inner):
                if self.ok(f):
                    yield f

    @staticmethod
    def ok(forest):
        """element names are unique in a form; nested include areas of form elements are not supported (docs)"""
        seen = []

        def walk(nodes, inside):
            for kind, area, page, children in nodes:
                if area:
                    if inside or area[8:] in seen:
                        return False
                    seen.append(area[8:])
                if not walk(children, inside or bool(area)):
                    return False
            return True
        return walk(forest, False)

    def spaces(self, tier):
        n = 5 if tier == 'thorough' else 4

        def cases(n, style, names, kinds, setups, two=0):
            for f in self.shapes(n, style, names, kinds):
                for s in setups:
                    yield dict(f=f, style=style, setup=s, two=two)
        names = ['include_core_П', 'includr_core_Р', 'include_Рядом']
        return [('flat', cases(n, 'flat', names, ['Group'], list(SETUPS))),
                ('pages', cases(n, 'pages', names[:2], ['Panel', 'Group'], ['plain'])),
                ('pages3', cases(3, 'pages', names + ['include__выше_П'], ['Panel'], list(SETUPS))),
                ('auto', cases(n - 1, 'auto', names[:2], ['Panel'], ['plain', 'moved'])),
                ('root', cases(3, 'flat', ['include_root', 'include_core_root'], ['Group'], list(SETUPS))),
                ('two', cases(3, 'pages', names[:2], ['Panel', 'Group'], ['plain', 'remap'], two=1)),
                ('two-flat', cases(3, 'flat', names[:2], ['Group'], ['plain', 'remap'], two=1))]

    def doc(self, forest, style, wrap=None):
        if wrap:
            forest = [['Group' if style == 'flat' else 'Panel', None, 'Стр2', forest]]
        tree, data = build(forest, style)
        return dict(params=None, props=[{'name': 'П', 'raw': []}], tree=tree, data=data)

    def run(self, case):
        index, here, fname = SETUPS[case['setup']]
        remap = (index or {}).get('Области include')
        base = fs.fresh(os.path.join(env.scratch_dir(), 'p08'))
        stage, src, out = base + '/stage', base + '/r/er/src', base + '/out'
        docs = {FORM: self.doc(case['f'], case['style'])}
        want, readonly = {}, {}
        if case.get('two'):
            docs[FORM2] = self.doc(case['f'], case['style'], wrap=True)
        for m, doc in docs.items():
            h, fn = (here, fname) if m == FORM else os.path.split(m)
            root, parts = reference_split(doc, h, remap)
            want[posixpath.normpath(h), fn] = root
            for key, part in parts.items():
                target = readonly if key[0] == 'readonly' else want
                target[key[-2:]] = part
        if case.get('two'):   # a shared branch is stored once: give both forms the same records in it
            self.share(docs, want, readonly, here, remap)
        for m, doc in docs.items():
            fs.put(stage, {m: json.dumps(doc, ensure_ascii=False)})
        self.org.unpack(stage, src, index=index)
        got = {}
        for k, v in fs.files_only(fs.tree(base + '/r')).items():
            got[k] = json.loads(v)
        expect = {os.path.normpath(os.path.join('er/src', d, f)): v for (d, f), v in want.items()}
        if set(got) != set(expect):
            self.fail(f'split: files {sorted(got)} instead of {sorted(expect)}')
        for k in expect:
            if got[k] != expect[k]:
                self.fail(f'split: {k}: {json.dumps(got[k], ensure_ascii=False)[:500]} instead of '
                          f'{json.dumps(expect[k], ensure_ascii=False)[:500]}')
        for (d, f), v in readonly.items():
            if (d, f) not in want:
                fs.put(os.path.join(src, d), {f: json.dumps(v, ensure_ascii=False)})
        os.chdir(base + '/r/er')
        self.org.pack(src, out, index=index)
        for m, doc in docs.items():
            with open(os.path.join(out, m), encoding='utf-8') as fd:
                res = json.load(fd)
            if res != doc:
                miss = sorted(set(doc['data']) - set(res['data']))
                extra = sorted(set(res['data']) - set(doc['data']))
                self.fail(f'join(split(form)) differs: missing data {miss}, extra {extra}, '
                          f'tree same: {res["tree"] == doc["tree"]}')
        self.count(executions=2, states=len(expect), transitions=sum(len(d['data']) for d in docs.values()))
        return sorted(expect), json.dumps(docs, sort_keys=True)

    def share(self, docs, want, readonly, here, remap):
        """make the records of equal branches equal in both forms (they get different ids otherwise)"""
        first = docs[FORM]
        second = docs[FORM2]
        root1, parts1 = reference_split(first, here, remap)
        root2, parts2 = reference_split(second, os.path.dirname(FORM2), remap)
        # rename elements inside the second form's branches like in the first, via re-splitting
        pre = 'Стр2/' if 'page' in second['tree'][0] else ''
        wrapper = pre + second['tree'][0]['name']

        names = {}

        def pair(a, b):
            for x, y in zip(a, b):
                names[y['name']] = x['name']
                y['name'] = x['name']
                if isinstance(x.get('child'), list):
                    pair(x['child'], y['child'])
        pair(first['tree'], second['tree'][0]['child'])
        new = {}
        for k, v in second['data'].items():
            if k.startswith(wrapper + '/'):
                rest = '/'.join(names.get(p, p) for p in k[len(wrapper) + 1:].split('/'))
                new[wrapper + '/' + rest] = copy.deepcopy(first['data'].get(rest, v))
            else:
                new[k] = v
        second['data'] = new
        want.clear()
        readonly.clear()
        for m, doc in docs.items():
            h, fn = os.path.split(m)
            root, parts = reference_split(doc, h, remap)
            want[posixpath.normpath(h), fn] = root
            for key, part in parts.items():
                if key[-2:] in want and want[key[-2:]] != part and key[0] != 'readonly':
                    raise RuntimeError('branches differ')
                (readonly if key[0] == 'readonly' else want)[key[-2:]] = part


CHECK = P08()
