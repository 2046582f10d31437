"""Every nesting of include areas with and without a directive comment, with //DynamicDirective markers at every
position, up to the node bound: building puts the directive of the nearest enclosing area that names one in front
of each marker, extracting removes it again and leaves the fragments as they were."""
import os
import re

from mc import codeinc, env, fs
from mc.core import Check

MODULE = 'CommonForm/Ф/Form.obj.bsl'
DIRS = [None, '&НаКлиенте', '&НаСервереБезКонтекста']


class P07(Check):
    id = 'P07'
    chunk = 16
    rule = 'all ordered forests of lines / markers / areas / include areas with a directive comment or none, up to the ' \
           'node bound; outcome = built text and source tree'
    bound = {'quick': '<=3 nodes over 2 names x 3 directives x 4 markers, <=4 nodes over 1 name x 3 directives',
             'thorough': '<=4 nodes over 2 names, <=5 over 1 name'}

    def setup(self):
        from v8unpack.organizer_file import OrganizerFile
        self.org = OrganizerFile

    def spaces(self, tier):
        t = tier == 'thorough'
        marks = [['D', '', ''], ['D', '    ', ''], ['D', '\t', ' общая'], ['D', '', ' // не трогать']]
        line = ['L', 'Процедура А(Б = "R&D") Экспорт //DynamicDirective']

        def inner(names, kinds='I', dirs=DIRS):
            out = [lambda c: ['A', c]]
            for k in kinds:
                for n in names:
                    for d in dirs:
                        out.append(lambda c, k=k, n=n, d=d: [k, n, d, c])
            return out

        def cases(n, leaves, inn, **kw):
            for k in range(1, n + 1):
                for f in codeinc.forests(k, leaves, inn):
                    yield dict(f=f, **kw)

        return [('wide', cases(4 if t else 3, marks + [line], inner(['X', 'core_Y'], 'I'))),
                ('readonly', cases(3, marks[:2], inner(['X'], 'IR'))),
                ('deep', cases(5 if t else 4, marks[:1], inner(['core_Y'], 'I'))),
                ('chain', self.chains(7 if t else 5)),
                ('styles', (dict(f=f, style=st) for st in codeinc.STYLES[1:] for k in range(1, 4) for f in
                            codeinc.forests(k, marks[:2], inner(['X', 'core_Y'], 'IR')))),
                ('indented', cases(3, marks[:1] + [line], inner(['X', 'core_Y'], 'I'), indent='\t')),
                ('indented4', cases(2, marks[:1] + [line], inner(['X', 'core_Y'], 'I'), indent='    '))]

    def chains(self, n):
        """a chain of nested includes of distinct files, a marker before and after each nested area"""
        import itertools
        for k in range(1, n + 1):
            for dirs in itertools.product(DIRS, repeat=k):
                f = [['D', '', ' лист']]
                for i, d in enumerate(dirs):
                    f = [['D', '', f' до{i}'], ['I', f'core_F{i}', d, f], ['D', '', f' после{i}']]
                yield dict(f=f[1:2])

    def has_repeat(self, nodes, stack=()):
        for n in nodes:
            if n[0] in 'IR':
                if n[1] in stack or self.has_repeat(n[3], stack + (n[1],)):
                    return True
            elif n[0] == 'A' and self.has_repeat(n[1], stack):
                return True
        return False

    def run(self, case):
        codeinc.STYLE = case.get('style', 'plain')
        forest = [['L', '// модуль']] + case['f']
        where, name = os.path.split(MODULE)
        try:
            files = codeinc.split(forest, where, name)
            given = codeinc.split(forest, where, name, with_readonly=True)
        except codeinc.Conflict:
            return 'conflict'
        base = fs.fresh(os.path.join(env.scratch_dir(), 'p07'))
        src, out, stage = base + '/r/src', base + '/out', base + '/stage'
        os.makedirs(src)
        for (d, f), v in given.items():
            fs.put(os.path.join(src, d), {f: v})
        self.org.pack(src, out)
        with open(os.path.join(out, MODULE), encoding='utf-8', newline='') as fd:
            built = fd.read()
        res = re.sub(r'(?m)^(&\S+)[ \t]+(?=//DynamicDirective)', r'\1 ', built)   # spacing is free
        want = codeinc.text(forest)
        if res != want:
            self.fail('built module: ' + fs.diff({MODULE: want.encode()}, {MODULE: res.encode()}))
        # back
        dest = base + '/q/src'
        given_text = built
        if case.get('indent'):
            given_text = ''.join(case['indent'] + x if x.startswith('&') else x for x in built.splitlines(True))
        fs.put(stage, {MODULE: given_text})
        self.org.unpack(stage, dest)
        got = {k: v for k, v in fs.files_only(fs.tree(base + '/q')).items()}
        expect = {}
        for (d, f), v in files.items():
            body = ''.join(self.unindent(x) for x in v.splitlines(True))
            expect[os.path.normpath(os.path.join('src', d, f))] = body.encode()
        got = {k: ''.join(self.unindent(x) for x in v.decode().splitlines(True)).encode() for k, v in got.items()}
        if got != expect:
            self.fail('extracted sources: ' + fs.diff(expect, got))
        self.count(executions=2, states=len(given), transitions=2 * len(given))
        return want

    @staticmethod
    def unindent(x):
        return x.lstrip(' \t') if x.strip().startswith('//DynamicDirective') else x


CHECK = P07()
