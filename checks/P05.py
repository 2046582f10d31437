"""Every value tree within the bound is written by the real writer; an independent reader and the real
reader must both get the same values back, and the text must keep the line layout 1C files use."""
import base64
import itertools
import os

from mc import brace, env, fs
from mc.core import Check

LEAF = ['0', '"a"', '""', '', '"x""y"', '"{,}"', '"\n{1,""\n}"']
ALPH = ['a', '""', ',', '{', '}', '\n', ' ', '#', ';']


class P05(Check):
    id = 'P05'
    case_timeout = 300
    rule = 'trees: all ordered trees x leaf menu; words: all strings over the grammar alphabet; lengths: every length ' \
           'of ASCII/Cyrillic/base64-looking strings and base64 payloads; roots: 1..3 root objects'
    bound = {'quick': 'trees <=5 nodes x7 leaves (6 nodes x3); words <=5 over 9 letters; lengths <=330',
             'thorough': 'trees <=6 nodes x7 leaves (<=9 x2); words <=6; lengths <=900'}

    def setup(self):
        from v8unpack import helper
        self.helper = helper

    def spaces(self, tier):
        t = tier == 'thorough'

        def shp():
            for n in range(2, 10 if t else 8):
                k = 7 if n <= (6 if t else 5) else 3 if n <= 7 else 2
                for s in brace.shapes(n):
                    yield dict(mode='shape', shape=s, k=k)

        def words():
            for n in range(0, 7 if t else 6):
                for head in itertools.product(range(len(ALPH)), repeat=min(n, 2)):
                    yield dict(mode='words', n=n, head=list(head))

        def lengths():
            for kind in ('ascii', 'lower', 'words', 'url', 'cyr', 'b64quoted', 'multiline', 'uuid', 'digits', 'token',
                         'tag', 'line'):
                for lo in range(0, 900 if t else 330, 30):
                    yield dict(mode='length', kind=kind, lo=lo, hi=lo + 30)

        def roots():
            for n in (1, 2, 3):
                for vals in itertools.product([['0'], ['"\n"'], [['1'], '2'], ['1', ['2']]], repeat=n):
                    yield dict(mode='roots', roots=list(vals))
        return [('shapes', shp()), ('words', words()), ('lengths', lengths()), ('roots', roots())]

    def check(self, roots):
        d = env.scratch_dir()
        expect = brace.norm(roots)
        self.helper.brace_file_write(roots, d, 'doc')
        with open(os.path.join(d, 'doc'), 'rb') as f:
            raw = f.read()
        self.count(executions=1, transitions=2)
        try:
            text = raw.decode('utf-8')
            model = brace.norm(brace.parse(text))
        except (UnicodeDecodeError, brace.BadBrace) as err:
            self.fail(f'value {roots!r:.300} written as something unreadable ({err}): {raw[:400]!r}')
        if model != expect:
            self.fail(f'value {roots!r:.300} written as {raw[:500]!r}, which means {model!r:.300}')
        value = self.helper.brace_file_read(d, 'doc')
        got = brace.norm(value)
        if got == expect and repr(value) != repr(roots):
            # an empty value is not read as it was given
            self.helper.brace_file_write(value, d, 'doc')
            got = brace.norm(self.helper.brace_file_read(d, 'doc'))
        if got != expect:
            self.fail(f'value {roots!r:.300} read back as {got!r:.300}')
        if not text.startswith('\ufeff'):
            self.fail('written brace file has no UTF-8 signature')

    def run(self, case):
        return getattr(self, 'run_' + case['mode'])(case)

    def run_shape(self, case):
        n = brace.leaves(case['shape'])
        cnt = 0
        for vals in itertools.product(LEAF[:case['k']] if case['k'] != 2 else ['0', '"{,}"'], repeat=n):
            self.check([brace.fill(case['shape'], vals)])
            cnt += 1
        self.count(states=cnt)
        return n, cnt

    def run_words(self, case):
        n, head = case['n'], case['head']
        cnt = 0
        for tail in itertools.product(ALPH, repeat=n - len(head)):
            s = '"' + ''.join(ALPH[i] for i in head) + ''.join(tail) + '"'
            for root in (['1', s, '2'], [['0', s], s, ['x']]):
                self.check([root])
            cnt += 1
        self.count(states=cnt)
        return n, cnt

    def run_length(self, case):
        cnt = 0
        for n in range(case['lo'], case['hi']):
            k = case['kind']
            b64 = base64.b64encode(fs.pattern(n, 2)).decode()
            if k == 'ascii':
                vals = ['"' + ''.join(chr(33 + (i * 7) % 93) for i in range(n)).replace('"', "'") + '"']
            elif k == 'lower':
                vals = ['"' + 'a' * n + '"', '"' + 'a' * n + ' b"', '"' + 'a' * n + '="']
            elif k == 'words':
                vals = ['"' + ('If a = 1 Then b = 2; EndIf; ' * 40)[:n] + '"']
            elif k == 'url':
                vals = ['"' + ('http://v8.1c.ru/8.1/data/enterprise/current-config/' * 20)[:n] + '"']
            elif k == 'cyr':
                vals = ['"' + ('Перем А, Б1; ' * 80)[:n] + '"']
            elif k == 'b64quoted':
                vals = ['"' + b64 + '"', '"#base64:' + b64 + '"']
            elif k == 'multiline':
                vals = ['"' + ('line of code;\n' * 80)[:n] + '"']
            elif k == 'uuid':
                vals = ['aa64c6c6-7001-452d-b636-4a8ff3efc44f' * (n // 20 + 1)]
            elif k == 'digits':
                vals = ['1' * (n + 1)] if n < 60 else ['"' + '1' * n + '"']
            elif k == 'token':
                vals = [b64] if len(b64) > 64 else ['x']
                self.check([['2', 'aa64c6c6-7001-452d-b636-4a8ff3efc44f', vals[0]]])
                cnt += 1
                continue
            elif k == 'tag':
                vals = ['#base64:' + b64]
            else:
                vals = ['##base64:' + b64]
            for v in vals:
                if k in ('tag', 'line'):
                    self.check([['1', '2', [v], '"n"']])
                    self.check([['4', [v]]])
                else:
                    self.check([['1', v, '0']])
                    self.check([[[v], v, ['0', v]]])
                cnt += 1
        self.count(states=cnt)
        return case['kind'], cnt

    def run_roots(self, case):
        self.check(case['roots'])
        return len(case['roots']), repr(case['roots'])


CHECK = P05()
