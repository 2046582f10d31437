"""Every history of extractions of a product at up to three configuration versions (in any order, with repeats)
over files of every kind: after each step the version store is what the documentation says (a version file only
where the content differs from the nearest lower one, other versions untouched), and a build for any version takes
for every file the nearest version not above it."""
import itertools
import json
import os
import posixpath

from mc import codeinc, env, fs
from mc.core import Check

OBJ = 'CommonForm/Ф'
VERSIONS = [0, 7, 30, 100]
BUILDS = [0, 5, 7, 29, 30, 99, 100, 1000]


def rec(tag):
    return {'id': '1', 'raw': ['x', {'т': tag}]}


class Plain:
    """a file that is copied"""
    parts = 1

    def __init__(self, name):
        self.name = name

    def full(self, c):
        return f'содержимое {self.name} {c[0]}'

    def split(self, c):
        return [(('src', posixpath.join(OBJ, self.name)), self.full(c))]

    same = staticmethod(lambda a, b: a == b)


class Code:
    """a module with an area: near (next to it), inside (path leading into the sources), outside, sibling (a folder
    whose name begins with the name of the sources folder)"""
    parts = 2
    areas = {'near': ('Рядом', ('src', OBJ + '/Рядом.bsl')),
             'inside': ('src_prod_Общее_Х', ('src', 'Общее/Х.bsl')),
             'outside': ('core_Х', ('out', 'core/Х.bsl')),
             'sibling': ('src_prod2_Х', ('out', 'src/prod2/Х.bsl'))}

    def __init__(self, name, area):
        self.name, self.area = name, self.areas[area]

    def split(self, c):
        return [(('src', posixpath.join(OBJ, self.name)),
                 f'// модуль {c[0]}\n#Область include_{self.area[0]}\n#КонецОбласти\n'),
                (self.area[1], f'\tТело({c[1]});\n')]

    def full(self, c):
        return f'// модуль {c[0]}\n#Область include_{self.area[0]}\n\tТело({c[1]});\n#КонецОбласти\n'

    same = staticmethod(lambda a, b: a == b)


class Elem:
    parts = 2

    def __init__(self, name, area, tree=False):
        self.name, self.area, self.tree = name, Code.areas[area], tree

    def node(self, c):
        """versions differ in the tree of the elements only, or in their data only"""
        return {'name': 'Внутри', 'type': 'Field' + c[1]} if self.tree else {'name': 'Внутри', 'type': 'Field'}

    def data(self, c):
        return rec('внутри' if self.tree else c[1])

    def doc(self, c, child):
        n = 'include_' + self.area[0]
        return {'tree': [{'name': n, 'type': 'Group', 'child': child},
                         {'name': 'Поле', 'type': 'Field' + (c[0] if self.tree else '')}],
                'data': {n: rec('группа'), 'Поле': rec('поле' if self.tree else c[0])}}

    def split(self, c):
        n = 'include_' + self.area[0]
        main = self.doc(c, 'В отдельном файле')
        part = {'tree': [self.node(c)], 'data': {n + '/Внутри': self.data(c)}}
        where, path = self.area[1]
        return [(('src', posixpath.join(OBJ, self.name)), json.dumps(main, ensure_ascii=False)),
                ((where, path[:-4] + '.elem.json'), json.dumps(part, ensure_ascii=False))]

    def full(self, c):
        d = self.doc(c, [self.node(c)])
        d['data']['include_' + self.area[0] + '/Внутри'] = self.data(c)
        return json.dumps(d, ensure_ascii=False)

    @staticmethod
    def same(a, b):
        return json.loads(a) == json.loads(b)


KINDS = {'bin': lambda: Plain('CommonForm.bin'), 'dotted': lambda: Plain('CommonForm.id.json'),
         'numbered': lambda: Plain('CommonForm.0.c1brace')}
for _a in Code.areas:
    KINDS['code-' + _a] = lambda a=_a: Code('CommonForm.obj.bsl', a)
    KINDS['elem-' + _a] = lambda a=_a: Elem('CommonForm.elem.json', a)
KINDS['tree-near'] = lambda: Elem('CommonForm.elem.json', 'near', tree=True)
PAIRS = [('П.bin', 'ПЧ.bin'), ('П.bin', 'П.x.bin'), ('П.obj.bin', 'П.object.bin'), ('П.n', 'П.xn'),
         ('П.bin', 'П.0.bin'), ('П.bin', 'П.07.bin'), ('О.bsl', 'ОО.bsl')]


def suffixed(path, v):
    d, n = posixpath.split(path)
    if v:
        p = n.split('.')
        p.insert(-1, str(v))
        n = '.'.join(p)
    return posixpath.join(d, n)


class P11(Check):
    id = 'P11'
    chunk = 8
    rule = 'all extraction histories (version x content) up to the length bound per file kind x listing order, each ' \
           'followed by builds for 8 versions; state = set of stored versions'
    bound = {'quick': 'histories of <=3 extractions, 4 versions, 2 contents per part',
             'thorough': 'histories of <=4 extractions'}

    def setup(self):
        from v8unpack.organizer_file_ce import OrganizerFileCE
        self.ce = OrganizerFileCE

    def spaces(self, tier):
        top = 4 if tier == 'thorough' else 3

        def histories(n, versions, contents):
            for k in range(1, n + 1):
                yield from itertools.product(itertools.product(versions, contents), repeat=k)

        def single():
            for kind in KINDS:
                parts = KINDS[kind]().parts
                contents = [list(c) for c in itertools.product('AB', repeat=parts)]
                versions = VERSIONS if parts == 1 else [0, 7, 30]
                for h in histories(top if parts == 1 else min(top, 3), versions, contents):
                    for moved in ((0, 1) if len(h) < 3 and kind in ('bin', 'code-near', 'elem-near') else (0,)):
                        yield dict(kind=kind, h=[[v, c] for v, c in h], moved=moved, order=len(h) % 2)

        def pairs():
            for pair in PAIRS:
                for h in histories(2, VERSIONS, [x for x in itertools.product('-AB', repeat=2) if x != ('-', '-')]):
                    for order in (0, 1):
                        yield dict(pair=pair, h=[[v, list(c)] for v, c in h], order=order)
        return [('kinds', single()), ('names', pairs())]

    def run(self, case):
        base = fs.fresh(os.path.join(env.scratch_dir(), 'p11'))
        root = base + '/root'
        src = root + '/src/prod'
        os.makedirs(root)
        if case['order']:
            env.ENV.list_order = lambda names: names[::-1]
        index = None
        if 'pair' in case:
            files = [Plain(n) for n in case['pair']]
        else:
            files = [KINDS[case['kind']]()]
            if case['moved']:
                index = {'CommonForm': {'Ф': {files[0].name: 'base/' + files[0].name}}}
        store, outside = {}, {}      # store: {path: {version: (file no, part no, content)}}
        for v, c in case['h']:
            stage = {}
            for i, f in enumerate(files):
                cc = [c[i]] if 'pair' in case else c
                if cc[0] == '-':
                    continue
                stage[posixpath.join(OBJ, f.name)] = f.full(cc)
                for p, ((where, path), data) in enumerate(f.split(cc)):
                    if index and p == 0:
                        where, path = 'out', 'base/' + f.name
                    elif index and where == 'src' and path.startswith(OBJ):   # next to the redirected file
                        where, path = 'out', 'base/' + posixpath.basename(path)
                    if where == 'out':
                        outside[path] = (i, p, cc[p], data)
                        continue
                    have = store.setdefault(path, {})
                    lower = [x for x in have if x < v]
                    if v in have or not lower or have[max(lower)][2] != cc[p]:
                        have[v] = (i, p, cc[p], data)
            if not stage:
                continue
            fs.wipe(base + '/stage')
            fs.put(base + '/stage', stage)
            self.ce.unpack(base + '/stage', src, index=index, descent=v)
            want = {'src/prod/' + suffixed(path, x): data for path, have in store.items()
                    for x, (i, p, cx, data) in have.items()}
            want.update({path: data for path, (i, p, cx, data) in outside.items()})
            got = {k: d.decode() for k, d in fs.files_only(fs.tree(root)).items()}
            for k in sorted(set(want) | set(got)):
                if k not in got or k not in want or not (
                        json.loads(got[k]) == json.loads(want[k]) if k.endswith('.json') and 'elem' in k
                        else got[k] == want[k]):
                    self.fail(f'after extracting version {v}: {k} '
                              + ('is missing' if k not in got else 'is unexpected' if k not in want else
                                 f'is {got[k][:80]!r} instead of {want[k][:80]!r}'))
            self.count(executions=1, transitions=1)
        for v in BUILDS:
            self.build(v, files, store, outside, src, base, index)
        self.count(states=len(store))
        return [(k, sorted(x)) for k, x in sorted(store.items())], len(case['h'])

    def build(self, v, files, store, outside, src, base, index):
        chosen, missing = {}, False
        for have in store.values():
            ok = [x for x in have if x <= v]
            if ok:
                i, p, c, _ = have[max(ok)]
                chosen[i, p] = c
            else:
                missing = True
        for i, p, c, _ in outside.values():
            chosen[i, p] = c
        os.chdir(os.path.dirname(os.path.dirname(src)))
        try:
            self.ce.pack(src, base + '/out', index=index, descent=v)
        except Exception:
            if missing:
                return     # something the build needs exists in higher versions only: refusing is fine
            raise
        got = {k: d.decode() for k, d in fs.files_only(fs.tree(base + '/out')).items()}
        for i, f in enumerate(files):
            path = posixpath.join(OBJ, f.name)
            c = [chosen.get((i, p)) for p in range(f.parts)]
            if None in c:
                if path in got:
                    self.fail(f'build for version {v} has {path}, which exists in higher versions only')
                continue
            if path not in got:
                self.fail(f'build for version {v}: {path} is missing')
            if not f.same(got[path], f.full(c)):
                self.fail(f'build for version {v}: {path} is {got[path][:150]!r} instead of {f.full(c)[:150]!r}')
        self.count(executions=1, transitions=1)


CHECK = P11()
