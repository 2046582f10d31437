"""Every module text made of code lines, ordinary areas, include and includr areas up to the node bound, under
every directory-file setup: splitting it puts exactly the documented files in the documented places and joining
them gives the text back; hand-edited fragments (no final newline, BOM, CRLF) join to the same text."""
import itertools
import os
import posixpath

from mc import codeinc, env, fs
from mc.core import Check

LEAVES = [['L', '\tЕсли А = "#Б" Тогда Возврат; КонецЕсли;'], ['L', ''], ['L', '#Если Клиент Тогда']]
NAMES = ['X', 'core_X', 'core_sub_Y', '_up_X', 'root', 'Область_include', 'core__U']
MODULE = 'CommonModule/Модуль/CommonModule.obj.bsl'


def inner(names, readonly):
    out = [lambda c: ['A', c]]
    for n in names:
        out.append(lambda c, n=n: ['I', n, None, c])
    for n in readonly:
        out.append(lambda c, n=n: ['R', n, None, c])
    return out


SETUPS = {
    'plain': dict(index=None),
    'moved': dict(index={'CommonModule': {'Модуль': {'CommonModule.obj.bsl': 'shared/mods/M.bsl'}}}),
    'remap': dict(index={'Области include': {'core_X': 'other_deep_Z', 'X': 'core_W', 'root': 'R2'}}),
    'chain': dict(index={'Области include': {'X': 'core_X', 'core_X': 'other_Z', 'core__U': '_new__U'}}),
    'both': dict(index={'CommonModule': {'Модуль': {'*': 'shared/all'}},
                        'Области include': {'core_sub_Y': 'Y2'}}),
}


class P06(Check):
    id = 'P06'
    chunk = 16
    rule = 'all ordered forests of code lines / areas / include / includr areas up to the node bound x redirection ' \
           'setup x padding; outcome = produced source tree and joined text'
    bound = {'quick': 'forests of <=3 nodes over 3 lines, 7 include and 2 includr names; <=4 nodes over 2 names',
             'thorough': 'forests of <=4 nodes, <=5 over 2 names'}

    def setup(self):
        from v8unpack.organizer_file import OrganizerFile
        self.org = OrganizerFile

    def spaces(self, tier):
        t = tier == 'thorough'
        full = inner(NAMES, ['core_X', 'X'])
        small = inner(['X', 'core_X'], ['core_X'])

        def cases(n, leaves, inn, setups, pads):
            for k in range(0, n + 1):
                for f in codeinc.forests(k, leaves, inn):
                    for s in setups:
                        for pad in pads:
                            yield dict(f=f, setup=s, pad=pad)

        def edits():
            for k in range(1, 4 if t else 3):
                for f in codeinc.forests(k, LEAVES[:1], inner(['X', 'core_X', '_up_X'], ['core_R'])):
                    for s in SETUPS:
                        for edit in ('nonl', 'bom', 'crlf', 'bom+nonl'):
                            for pad in (0, 1):
                                yield dict(f=f, setup=s, pad=pad, edit=edit)

        def two():
            # two modules sharing fragments (same content), different folders
            for k in range(1, 3):
                for f in codeinc.forests(k, LEAVES[:1], inner(['core_X', 'X', '_up_X'], ['core_X'])):
                    for s in SETUPS:
                        yield dict(f=f, setup=s, pad=1, two=1)

        def styles():
            # the lines of the areas indented, with comments, with tabs
            for style in codeinc.STYLES[1:]:
                for k in range(1, 4 if t else 3):
                    for f in codeinc.forests(k, LEAVES[:1], inner(['X', 'core_X', '_up_X', 'core__U', 'a_b__c'], ['core_R'])):
                        for s in ('plain', 'chain', 'moved'):
                            for pad in (0, 1):
                                yield dict(f=f, setup=s, pad=pad, style=style)

        return [('styles', styles()), ('forests', cases(3, LEAVES, full, list(SETUPS), (1,))),
                ('unpadded', cases(3 if t else 2, LEAVES, full, list(SETUPS), (0,))),
                ('deep', cases(5 if t else 4, LEAVES[:1], small, ['plain', 'both'], (1,))),
                ('edits', edits()), ('two', two())] + \
               ([('forests4', cases(4, LEAVES[:2], inner(NAMES[:5], ['core_X']), ['plain', 'moved', 'remap'], (0,)))]
                if t else [])

    def pad(self, forest, flag):
        """a distinct line in every area, so nothing is lost or moved unnoticed"""
        if not flag:
            return forest

        def walk(nodes, where):
            out = []
            for node in nodes:
                if node[0] == 'A':
                    out.append(['A', [['L', 'Внутри = 1;']] + walk(node[1], where)])
                elif node[0] in 'IR':
                    out.append([node[0], node[1], node[2],
                                [['L', f'Тело("{node[1]}");']] + walk(node[3], node[1])])
                else:
                    out.append(node)
            return out
        return [['L', '// начало']] + walk(forest, '') + [['L', '// конец']]

    def run(self, case):
        codeinc.STYLE = case.get('style', 'plain')
        forest = self.pad(case['f'], case['pad'])
        index = SETUPS[case['setup']]['index']
        remap = (index or {}).get('Области include')
        base = fs.fresh(os.path.join(env.scratch_dir(), 'p06'))
        stage, out = base + '/stage', base + '/deep/er/out'
        src = base + '/deep/er/src'
        modules = [MODULE] + (['Form/Ф/Form.obj.bsl'] if case.get('two') else [])
        expect, given = {}, {}
        for m in modules:
            where, name = posixpath.split(m)
            if m == MODULE and index and 'CommonModule' in index:
                if case['setup'] == 'moved':
                    where, name = '../shared/mods', 'M.bsl'
                else:
                    where = '../shared/all'
            try:
                files = codeinc.split(forest, where, name, remap)
                every = codeinc.split(forest, where, name, remap, with_readonly=True)
            except codeinc.Conflict:
                return 'conflict'
            for k, v in files.items():
                if expect.setdefault(k, v) != v:
                    return 'conflict'
            given.update(every)
        full = codeinc.text(forest)
        if case.get('edit'):
            return self.joined(case, base, given, modules, full, index, remap)
        fs.put(stage, {m: full for m in modules})
        self.org.unpack(stage, src, index=index)
        root = base + '/deep'
        got = {k: v.decode('utf-8') for k, v in fs.files_only(fs.tree(root)).items()}
        want = {os.path.normpath(os.path.join('er/src', d, f)): v for (d, f), v in expect.items()}
        if got != want:
            self.fail('split: ' + fs.diff({k: v.encode() for k, v in want.items()},
                                          {k: v.encode() for k, v in got.items()}))
        # read-only fragments are maintained by somebody else: they exist
        for (d, f), v in given.items():
            if (d, f) not in expect:
                fs.put(os.path.join(src, d), {f: v})
        os.chdir(base + '/deep/er')   # '*' entries are listed relative to the repository root
        self.org.pack(src, out, index=index)
        for m in modules:
            with open(os.path.join(out, m), encoding='utf-8', newline='') as fd:
                res = fd.read()
            if res != full:
                self.fail('join(split(text)) differs from text: ' + fs.diff({m: full.encode()}, {m: res.encode()}))
        self.count(executions=2, states=len(want), transitions=len(want) + 1)
        return sorted(want.items()), full

    def joined(self, case, base, given, modules, full, index, remap):
        src, out = base + '/deep/er/src', base + '/deep/er/out'
        os.makedirs(src)
        for (d, f), v in given.items():
            if 'nonl' in case['edit'] and v.endswith('\n'):
                v = v[:-1]
            if case['edit'] == 'crlf':
                v = v.replace('\n', '\r\n')
            data = v.encode('utf-8')
            if 'bom' in case['edit']:
                data = b'\xef\xbb\xbf' + data
            fs.put(os.path.join(src, d), {f: data})
        os.chdir(base + '/deep/er')
        self.org.pack(src, out, index=index)
        for m in modules:
            with open(os.path.join(out, m), encoding='utf-8-sig', newline='') as fd:
                res = fd.read()
            a, b = full, res
            if 'nonl' in case['edit']:   # an empty last line may go with its newline
                a, b = a.rstrip('\n'), b.rstrip('\n')
            if a != b:
                self.fail(f'joining fragments saved with {case["edit"]}: ' + fs.diff({m: a.encode()}, {m: b.encode()}))
        self.count(executions=1, states=len(given), transitions=len(given))
        return res


CHECK = P06()
