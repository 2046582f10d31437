"""Directives in modules for old platforms: every text of a few lines, in every kind of module that is escaped and in
those that are not, through extraction, editing, building and extraction again."""
import itertools
import os

from mc import drive, v8conf
from mc.core import Check

LINES = ['', 'Код', '#Область А', '#КонецОбласти', '&НаСервере', '&НаКлиенте', '&НаСервереБезКонтекста //Х', '  #Область Б',
         '#Если Сервер Тогда', '// v8unpack #Область А', '// v8unpack &НаКлиенте', 'Код; // v8unpack #Область']
DIRECTIVES = ('#Область', '#КонецОбласти', '&НаСервере', '&НаКлиенте')
MARK = '// v8unpack '


def escape(text):
    lines = text.split('\n')
    # documented: the first line of a module is not escaped
    return '\n'.join([lines[0]] + [MARK + x if x.startswith(DIRECTIVES) else x for x in lines[1:]])


def unescape(text):
    lines = text.split('\n')
    return '\n'.join([lines[0]] + [x[len(MARK):] if x.startswith((MARK + '#', MARK + '&')) else x for x in lines[1:]])


def closed(text):
    """no area is ended that was not begun: other modules are not valid"""
    depth = 0
    for line in text.split('\n'):
        line = line.strip()
        depth += line.startswith('#Область') - line.startswith('#КонецОбласти')
        if depth < 0:
            return False
    return True


CF = {'seance': '7', 'app': '6', '802': '0', 'con': '5'}
# where: (texts per product, escaped, product of the texts, module file of the i-th text)
PLACES = {}


def place(name, n, escaped):
    def deco(func):
        PLACES[name] = (n, escaped, func)
        return func
    return deco


def source(*parts):
    return os.path.join(*parts)


def root_place(kind, ver, how):
    names = list(CF) if kind == 'cf' else ['obj'] if kind in ('epf', 'erf') else ['con', 'app', 'ssn']
    cls = {'cf': 'Configuration', 'cfe': 'ConfigurationExtension'}.get(kind, 'ExternalDataProcessor')

    def func(texts):
        desc = dict(kind=kind, ver=ver, m=[n + how for n in names], text={n: t for n, t in zip(names, texts)})
        return desc, [source(f'{cls}.{n}.bsl') for n in names]
    PLACES[f'{kind}{ver}{how}'] = (len(names), kind != 'cfe' and ver in ('801', '802'), func)


for _k, _v in (('cf', '802'), ('cf', '803'), ('cfe', '803'), ('epf', '801'), ('epf', '802'), ('epf', '803'), ('erf', '802')):
    for _h in ('', ':f'):
        root_place(_k, _v, _h)


def form_place(ver, uf, kind, style, oldform=0):
    def func(texts):
        t = {'epf': 'Form', 'erf': 'Form', 'cf': 'CommonForm'}[kind]
        desc = dict(kind=kind, ver=ver, objs=[dict(t=t, n=f'Ф{i}', uf=uf, ver=style, oldform=oldform, text={'obj': x})
                                              for i, x in enumerate(texts)])
        return desc, [source(t, f'Ф{i}', f'{t}.obj.bsl') for i in range(len(texts))]
    PLACES[f'form {kind}{ver} {"managed" if uf else "ordinary"} {style} {oldform}'] = (40, not uf, func)


for _kind, _v in (('cf', '802'), ('cf', '803'), ('epf', '801'), ('epf', '802'), ('epf', '803')):
    for _s in ('5', '13') if _kind == 'epf' else ('13',):
        for _old in (0, 1):
            form_place(_v, 0, _kind, _s, _old)
        form_place(_v, 1, _kind, _s)


@place('common modules', 40, False)
def common(texts):
    return (dict(kind='cf', ver='803', objs=[dict(t='CommonModule', n=f'М{i}', m=['obj'], text={'obj': x})
                                             for i, x in enumerate(texts)]),
            [source('CommonModule', f'М{i}', 'CommonModule.obj.bsl') for i in range(len(texts))])


class P20(Check):
    id = 'P20'
    chunk = 1
    rule = 'texts of up to N lines of 12 kinds x 39 places of a module x {in the product, edited in the sources}'
    bound = {'quick': '<=3 lines in forms and modules of 8.2, <=2 elsewhere', 'thorough': '<=4 lines / <=3'}

    def setup(self):
        self.d = drive.Driver()

    def spaces(self, tier):
        out = []
        for name, (n, escaped, _) in PLACES.items():
            top = (3 if n > 1 and escaped or name == 'epf802' else 2) + (tier == 'thorough')
            if tier == 'quick' and name.startswith('form') and '13' not in name:
                top = 2
            out.append((name, self.batches(name, n, top)))
        return out

    @staticmethod
    def batches(name, n, top):
        texts = ['\n'.join(x) for k in range(1, top + 1) for x in itertools.product(LINES, repeat=k)]
        texts = [x for x in texts if x and closed(x) and closed(unescape(x)) and closed(unescape(escape(x)))]
        for i in range(0, len(texts), n):
            yield dict(place=name, texts=texts[i:i + n])

    def run(self, case):
        n, escaped, func = PLACES[case['place']]
        texts = case['texts'] + ['Код'] * (n - len(case['texts']) if n < 10 else 0)
        desc, files = func([t.replace('\n', '\r\n') for t in texts])
        self.d.start()
        src = self.d.extract(v8conf.pack(v8conf.Product(desc).tree))
        want = [unescape(t) if escaped else t for t in texts]
        self.sources(src, files, want, texts, 'is in the sources as')
        out = self.d.build()
        built = [escape(t) if escaped else t for t in want]
        self.product(func, built, out, 'extracted and built')
        # the same text written into the sources by a developer
        for name, t in zip(files, texts):
            with open(os.path.join(src, name), 'w', encoding='utf-8') as f:
                f.write(t)
        out = self.d.build()
        built = [escape(t) if escaped else t for t in texts]
        self.product(func, built, out, 'edited in the sources and built')
        src2 = self.d.extract(out, src='src2')
        self.sources(src2, files, [unescape(t) if escaped else t for t in built], built, 'is extracted again as')
        self.count(executions=4, states=len(texts), transitions=3 * len(texts))

    def sources(self, src, files, want, texts, what):
        for name, w, t in zip(files, want, texts):
            with open(os.path.join(src, name), encoding='utf-8') as f:
                got = f.read()
            if got != w:
                self.fail(f'text {t!r} {what} {got!r} instead of {w!r}')

    def product(self, func, built, out, what):
        desc, _ = func([t.replace('\n', '\r\n') for t in built])
        diffs = v8conf.Product(desc).compare(v8conf.unpack(out))
        if diffs:
            self.fail(f'{what}: ' + '; '.join(diffs[:3]))


CHECK = P20()
