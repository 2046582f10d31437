"""Every brace document within the bound - all nesting shapes, all string contents over the alphabet of
characters the grammar gives a meaning to, in every position, all line-end/BOM/code-page variants - is read by
the real reader and by an independent character-level reader; both must agree."""
import itertools
import os

from mc import brace, env, fs
from mc.core import Check

LEAF = ['0', '"a"', '""', '', 'aa64c6c6-7001-452d-b636-4a8ff3efc44f', '"x""y"', '"{,}"', '"\n{1,""\n}"']
ALPH = ['a', '""', ',', '{', '}', '\n', ' ', '#', ';']
ALPH4 = ['a', '""', ',', '{', '}', '\n']


class P04(Check):
    id = 'P04'
    chunk = 1
    case_timeout = 300
    rule = 'shapes: all ordered trees x leaf menu; strings: all words over the alphabet in 5 positions; base64: all ' \
           'lengths; each document read by tool and by an independent reader'
    bound = {'quick': 'trees <=5 nodes with 8 leaf values, 6..7 nodes with 3; words <=5 over 9 letters; base64 <=330',
             'thorough': 'trees <=6 nodes with 8 leaf values, <=9 nodes with 2; words <=6 over 9 letters; two adjacent strings <=3'}

    def setup(self):
        from v8unpack import helper
        self.helper = helper

    def spaces(self, tier):
        t = tier == 'thorough'

        def shp():
            for n in range(2, 11 if t else 9):
                k = (8 if n <= (6 if t else 5) else 3 if n <= (8 if t else 7) else 2)
                for s in brace.shapes(n):
                    yield dict(mode='shape', shape=s, k=k)

        def words():
            for n in range(0, 7 if t else 6):
                for head in itertools.product(range(len(ALPH)), repeat=min(n, 2)):
                    yield dict(mode='words', n=n, head=list(head))

        def pairs():
            m = 4 if t else 3
            for n in range(0, m):
                for head in itertools.product(range(len(ALPH4)), repeat=n):
                    yield dict(mode='pairs', a=list(head), m=m)

        def b64():
            for form in ('token', 'tag', 'line'):
                for nl in ('\n', '\r\n', '\r\r\n'):
                    for where in ('only', 'last', 'mid'):
                        yield dict(mode='b64', form=form, nl=nl, where=where, top=700 if t else 330)

        def enc():
            for code in ('utf-8', 'utf-8-sig', 'cp1251'):
                for nl in ('\n', '\r\n'):
                    for end in ('', '\n'):
                        for close in ('auto', 'never'):
                            for start in ('', '\n', '\n\n'):
                                yield dict(mode='enc', code=code, nl=nl, start=start, end=end, close=close)
        return [('shapes', shp()), ('words', words()), ('pairs', pairs()), ('base64', b64()), ('encodings', enc())]

    def read(self, text, code='utf-8', newline=''):
        d = env.scratch_dir()
        path = os.path.join(d, 'doc')
        with open(path, 'w', encoding=code, newline=newline) as f:
            f.write(text)
        self.count(executions=1, transitions=text.count('\n') + 1)
        return self.helper.brace_file_read(d, 'doc')

    def agree(self, roots, text, **kw):
        model = brace.norm(brace.parse(text))
        expect = brace.norm([self.nlnorm(r) for r in roots])
        assert model == expect, (model, expect, text)
        try:
            got = self.read(text, **kw)
        except Exception as err:
            self.fail(f'valid document rejected: {text[:300]!r}: {str(err)[:300]}')
        if brace.norm(got) != expect:
            self.fail(f'document {text[:400]!r} read as {got!r:.400}, expected {expect!r:.400}')

    def nlnorm(self, v):
        if isinstance(v, list):
            return [self.nlnorm(x) for x in v]
        return v

    def run(self, case):
        return getattr(self, 'run_' + case['mode'])(case)

    def run_shape(self, case):
        n = brace.leaves(case['shape'])
        cnt = 0
        for vals in itertools.product(LEAF[:case['k']] if case['k'] != 2 else ['0', '"{,}"'], repeat=n):
            root = brace.fill(case['shape'], vals)
            for close in ('auto', 'never'):
                self.agree([root], brace.write([root], close=close))
            cnt += 1
        self.agree([brace.fill(case['shape'], ['0'] * n)] * 2, brace.write([brace.fill(case['shape'], ['0'] * n)] * 2))
        self.count(states=cnt)
        return n, cnt

    def run_words(self, case):
        n, head = case['n'], case['head']
        cnt = 0
        for tail in itertools.product(ALPH, repeat=n - len(head)):
            s = '"' + ''.join(ALPH[i] for i in head) + ''.join(tail) + '"'
            for root in ([s], ['1', s, '2'], ['1', s], [['0', s], s, ['x']], [s, [['1'], s]]):
                self.agree([root], brace.write([root]))
            cnt += 1
        self.count(states=cnt)
        return n, cnt

    def run_pairs(self, case):
        a = '"' + ''.join(ALPH4[i] for i in case['a']) + '"'
        cnt = 0
        for n in range(case['m']):
            for b in itertools.product(ALPH4, repeat=n):
                b = '"' + ''.join(b) + '"'
                for root in ([a, b], ['0', a, b, '0'], [[a, b], [b, a]]):
                    self.agree([root], brace.write([root]))
                cnt += 1
        self.count(states=cnt)
        return case['a'], cnt

    def run_b64(self, case):
        import base64
        cnt = 0
        for size in range(0, case['top']):
            body = base64.b64encode(fs.pattern(size, 1)).decode()
            if case['form'] == 'token':
                if len(body) <= 64:
                    continue
                tok = body
                if case['where'] == 'mid':
                    continue
                root = ['2', '441409d2-3886-401b-a438-efef4ec22dc9', tok] if case['where'] == 'last' else [['9', tok], '0']
            else:
                tok = ('#base64:' if case['form'] == 'tag' else '##base64:') + body
                root = {'only': ['0', [tok]], 'last': [['3', [tok]], '1'], 'mid': ['4', ['2', [tok], '"n"'], [tok]]}[case['where']]
            if case['form'] == 'token' and case['where'] == 'only' and len(body) % 64 == 0:
                pass
            self.agree([root], brace.write([root], nl=case['nl'].replace('\r\r', '\r'), b64_nl=case['nl']))
            cnt += 1
        self.count(states=cnt)
        return case['form'], cnt

    def run_enc(self, case):
        texts = ['"Справочник"', '"ё«»№"', '"\n  Процедура А()\n{ }\n"', 'a', '"тест ""в"" кавычках"']
        cnt = 0
        for n in range(1, 4):
            for vals in itertools.product(texts, repeat=n):
                root = ['1', list(vals), ['0', vals[0]]]
                text = brace.write([root], nl=case['nl'], close=case['close'])
                text = case['start'].replace('\n', case['nl']) + text + case['end'].replace('\n', case['nl'])
                if case['code'] == 'cp1251' and not any('\u0400' < c < '\u0500' for c in text):
                    continue
                self.agree([root], text, code=case['code'])
                cnt += 1
        self.count(states=cnt)
        return case['code'], cnt


CHECK = P04()
