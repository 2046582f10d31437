"""Every kind of metadata object x every subset of its modules/help/predefined data/... (stored as file or directory)
x every set of nested objects x tables of contents x root members x platform generations: extracting the product and
building the sources again gives the same members with the same content."""
import itertools
import json
import os
import zlib

from mc import cfmt, codeinc, drive, env, fs, v8conf
from mc.core import Check
from mc.v8conf import NESTED, TOP, TYPES, members, nested_types


def subsets(items):
    for k in range(len(items) + 1):
        yield from itertools.combinations(items, k)


def code_variants(t):
    """members, each module as a directory / as a file"""
    d = TYPES[t]
    axes = []
    for m in members(t):
        axes.append([None, m, m + ':f'] if m in d.get('code', {}) else
                    [None, m, m + ':empty'] if m == 'help' else [None, m])
    for pick in itertools.product(*axes):
        yield [m for m in pick if m]


def holder(t, objs, **kw):
    """smallest product holding the objects of a kind that is not top level"""
    return dict(kind='cf', objs=objs, **kw)


def full(t):
    d = TYPES[t]
    return {} if d['kind'] in ('form', 'template', 'picture', 'command') else {'m': members(t)}


def parent_of(t):
    return next(p for p in list(TYPES) if t in nested_types(p))


def wrap(t, o, **kw):
    """product with the object inside its parents"""
    while not TYPES[t].get('top', True):
        p = next((p for p in ('Catalog', 'DataProcessor') if t in nested_types(p)), None) or parent_of(t)
        o = dict(t=p, n='Родитель', m=[], c=[o])
        t = p
    return dict(kind='cf', objs=[o], **kw)


def forests(n):
    """ordered forests of n nodes"""
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for inner in forests(k - 1):
            for rest in forests(n - k):
                yield [inner] + rest


class Space:
    """products shared by the checks that need whole products"""

    @staticmethod
    def objects(deep):
        for t in TOP + NESTED:
            if TYPES[t]['kind'] not in ('container', 'simple'):
                continue
            for mm in code_variants(t):
                yield wrap(t, dict(t=t, n='Имя', m=mm))
            kinds = nested_types(t)
            for sub in subsets(kinds):
                for counts in itertools.product((1, 2), repeat=len(sub)):
                    children = [dict(t=k, n=f'Вл{i}', **full(k)) for k, c in zip(sub, counts) for i in range(c)]
                    if not children:
                        continue
                    for mm in ([], members(t)) if not deep else subsets(members(t)):
                        yield wrap(t, dict(t=t, n='Имя', m=list(mm), c=children))

    @staticmethod
    def pairs():
        for a, b in itertools.combinations_with_replacement(TOP, 2):
            yield dict(kind='cf', m=['app'], objs=[dict(t=a, n='Первый', **full(a)), dict(t=b, n='Второй', **full(b))])
        # the same name everywhere
        for a, b in itertools.combinations(TOP, 2):
            if TYPES[a]['kind'] == TYPES[b]['kind'] == 'container':
                yield dict(kind='cf', objs=[
                    dict(t=a, n='Имя', m=members(a), c=[dict(t=k, n='Имя', **full(k)) for k in nested_types(a)]),
                    dict(t=b, n='Имя', m=members(b), c=[dict(t=k, n='Имя', **full(k)) for k in nested_types(b)])])

    @staticmethod
    def deep(top):
        for n in range(1, top + 1):
            for f in forests(n):
                for mm in (['help', 'info'], ['info'], []):
                    for same in (0, 1):
                        def make(nodes, tag):
                            return [dict(t='Subsystem', n='Подсистема' if same and i == 0 else f'П{tag}{i}', m=mm,
                                         c=make(ch, f'{tag}{i}')) for i, ch in enumerate(nodes)]
                        yield dict(kind='cf', objs=make(f, ''))
        for nt, nc in itertools.product(range(0, 3), repeat=2):
            for kids in range(0, 3):
                def leafs(p):
                    return [dict(t=k, n=f'{k}{i}', **full(k)) for k in nested_types(p) for i in range(kids)]
                for m in (0, 1):
                    yield dict(kind='cf', objs=[dict(t='ExternalDataSource', n='ВИД', m=['obj'] * m, c=[
                        *[dict(t='ExternalDataSourceTable', n=f'Т{i}', m=members('ExternalDataSourceTable') * m,
                               c=leafs('ExternalDataSourceTable')) for i in range(nt)],
                        *[dict(t='ExternalDataSourceCube', n=f'К{i}', m=members('ExternalDataSourceCube') * m,
                               c=leafs('ExternalDataSourceCube')) for i in range(nc)]])])
        for nr in range(3):
            for kids in range(3):
                for mm in ([], members('CalculationRegister')):
                    yield dict(kind='cf', objs=[dict(t='CalculationRegister', n='РР', m=mm, c=[
                        *[dict(t='CalculationRegisterRecalculations', n=f'П{i}', m=['obj']) for i in range(nr)],
                        *[dict(t=k, n=f'{k}{i}', **full(k)) for k in
                          ('CalculationRegisterForm', 'Template', 'CalculationRegisterCommand') for i in range(kids)]])])

    NAMES = ['Имя', 'имя', 'A', '_1', 'Имя_с_очень_длинным_названием_объекта_метаданных_более_80_символов_' + 'х' * 20,
             'Form', 'Template', 'Catalog', 'CatalogForm', 'Subsystem', 'Configuration', 'Ёлка', 'v8unpack', 'index',
             'obj', 'json', 'id', '80316', 'Имя2', 'Имя10']
    COMMENTS = ['', 'просто', 'с ""кавычками""', 'скобки {1,2}', 'две\r\nстроки', 'ver:1.0', 'a;b', ' ', ';', "'", '\\']
    SYNONYMS = [{}, {'ru': ''}, {'ru': 'С ""кавычками""'}, {'ru': 'Рус', 'en': 'Eng'}, {'en': 'Eng', 'ru': 'Рус'},
                {'ru': '{1,""2""}'}]

    @classmethod
    def names(cls):
        for t in ('Catalog', 'CommonModule', 'CommonForm', 'CommonTemplate', 'CommonPicture', 'Subsystem', 'Role',
                  'Form', 'Template', 'CatalogCommand', 'CatalogForm', 'XDTOPackage', 'WSReference', 'Constant'):
            for n in cls.NAMES:
                yield wrap(t, dict(t=t, n=n, **full(t)))
            for c in cls.COMMENTS:
                yield wrap(t, dict(t=t, n='Имя', cmt=c, **full(t)))
            for s in cls.SYNONYMS:
                yield wrap(t, dict(t=t, n='Имя', syn=s, **full(t)))
        for t in TOP:
            for borrowed in (0, 1):
                for short in (0, 1):
                    yield dict(kind='cf', objs=[dict(t=t, n='Имя', borrowed=borrowed, short=short, **full(t))])
            # names sorted differently by code points, by case and by the order of the table of contents
            for names in itertools.permutations(['Б', 'а', 'Я1', 'Я10'], 3):
                yield dict(kind='cf', objs=[dict(t=t, n=n, **full(t)) for n in names])
        for t in v8conf.TYPES:
            yield wrap(t, dict(t=t, n='Имя', **full(t)), upper=1)
        for kind in ('cf', 'cfe', 'epf', 'erf'):
            yield dict(kind=kind, upper=1)
            for n in cls.NAMES:
                yield dict(kind=kind, n=n)
            for c in cls.COMMENTS:
                # 'ver:' in the comment of a product asks for the version stamp (P18)
                if 'ver:' in c:
                    continue
                yield dict(kind=kind, cmt=c)

    DATA = ['', 'AA==', '77u/', 'DQo=', 'DQ0K', 'e30=', 'eyJhIjogMX0=']

    @classmethod
    def templates(cls):
        for t in ('Template', 'CommonTemplate'):
            for tt in v8conf.TEMPLATE_TYPES:
                for cmt in ('', 'картинка png', 'файл html', 'c1b64', 'bin', 'txt', 'mxl', 'с точкой .x', 'id', 'json',
                            'bsl'):
                    yield wrap(t, dict(t=t, n='Макет', tt=tt, cmt=cmt))
                    yield wrap(t, dict(t=t, n='Макет', tt=tt, cmt=cmt, m=[]))
                    for d in cls.DATA:
                        yield wrap(t, dict(t=t, n='Макет', tt=tt, cmt=cmt, data=d))
                if tt == 'html':
                    for h in ('full', 'empty', 'none'):
                        yield wrap(t, dict(t=t, n='Макет', tt=tt, html=h))
        for cmt in ('', 'картинка png', 'svg', 'c1b64', 'bin', 'id', 'json', 'bsl', 'две\r\nстроки'):
            for kw in ({}, {'m': []}, *({'data': d} for d in cls.DATA)):
                yield dict(kind='cf', objs=[dict(t='CommonPicture', n='Картинка', cmt=cmt, **kw)])

    @staticmethod
    def forms():
        for t in TYPES:
            if TYPES[t]['kind'] != 'form':
                continue
            for ver in ('5', '7', '9', '12', '13', '14'):
                for uf in (0, 1):
                    for short in ((0, 1) if not uf else (0,)):
                        for wrapd in ((0, 1) if TYPES[t]['style'] == 'x' else (0,)):
                            for mm in (['obj'], [], ['obj', 'second'], ['second'], ['none'], ['none', 'second']):
                                yield wrap(t, dict(t=t, n='Форма', ver=ver, uf=uf, oldform=short, wrap=wrapd, m=mm))
            # older managed forms keep their module elsewhere
            for kw in (dict(deep='22'), dict(deep='1'), dict(oldest=1)):
                for mm in (['obj'], [], ['obj', 'second']):
                    yield wrap(t, dict(t=t, n='Форма', m=mm, **kw))

    @staticmethod
    def roots():
        code = ['seance', 'app', 'con', '802']
        # versions of the format of the file
        for fv in ('216', '217', '300'):
            for ver, pf in (('802', None), ('802', '1'), ('802', '2'), ('802', '80216'), *(('803', f'803{x:02}') for x in range(1, 28))):
                for kind in ('cf', 'cfe', 'epf', 'erf'):
                    if kind != 'cfe' or ver == '803':
                        yield dict(kind=kind, ver=ver, fv=fv, **({'pf': pf} if pf else {}), m=['con' if kind[0] == 'c' else 'obj'],
                                   objs=[dict(t='Catalog' if kind[0] == 'c' else 'Form', n='С', m=['obj'])])
        for ver in ('802', '803'):
            for mm in itertools.product(*[[None, m, m + ':f'] for m in code], [None, 'help', 'help:empty', 'help:none'],
                                        [None, 'splash', 'splash:empty']):
                yield dict(kind='cf', ver=ver, m=[m for m in mm if m])
            for mm in subsets(['4', '8', '9', '10', 'a', 'b', 'c', 'd', 'e', 'f']):
                yield dict(kind='cf', ver=ver, m=list(mm))
        for mm in itertools.product(*[[None, m, m + ':f'] for m in ('con', 'app', 'ssn')],
                                    *[[None, m] for m in ('8', '9', 'a')]):
            yield dict(kind='cfe', m=[m for m in mm if m], objs=[dict(t='Catalog', n='С', m=['obj'])])
        for kind in ('epf', 'erf'):
            for ver in ('801', '802', '803') if kind == 'epf' else ('802', '803'):
                for mm in itertools.product([None, 'obj', 'obj:f'], [None, 'form1']):
                    for f in subsets(['Form', 'Template']):
                        for counts in itertools.product((1, 2), repeat=len(f)):
                            for uf in (0, 1):
                                yield dict(kind=kind, ver=ver, m=[m for m in mm if m], objs=[
                                    dict(t=k, n=f'Вл{i}', uf=uf) for k, c in zip(f, counts) for i in range(c)])

    @staticmethod
    def toc():
        # order of the kinds, empty kinds, kinds that stay inside the object
        kinds = ['CatalogForm', 'Template', 'CatalogCommand']
        for sub in subsets(kinds):
            for order in itertools.permutations(sub):
                for z in subsets([k for k in kinds if k not in sub]):
                    for unk in ([], ['x'], ['FormAttribute'], ['TabularSectionAttribute', 'x']):
                        for n in (1, 2):
                            yield dict(kind='cf', objs=[dict(t='Catalog', n='С', m=['obj'], z=list(z), unk=unk, c=[
                                dict(t=k, n=f'{k}{n - i}', **full(k)) for k in order for i in range(n)])])
        groups = [g for g in v8conf.GROUPS if g != 'General']
        for g6 in subsets(groups):
            yield dict(kind='cf', g6=list(g6), zg=groups, objs=[dict(t=t, n='Имя', **full(t)) for t in TOP])
        for zg in subsets(groups):
            yield dict(kind='cf', zg=list(zg), objs=[dict(t='Catalog', n='С'), dict(t='Role', n='Р', m=['raw'])])
        for unk in ([], ['a'], ['a', 'b']):
            for z in ([], ['Catalog'], ['Catalog', 'Enum']):
                for objs in ([], ['Catalog'], ['Document', 'Catalog'], ['Enum', 'Document', 'Catalog']):
                    for kind in ('cf', 'cfe'):
                        yield dict(kind=kind, unk={'Main': unk, 'General': unk}, z={'Main': z},
                                   zg=['Main'], objs=[dict(t=t, n='Имя', **full(t)) for t in objs])

    @staticmethod
    def many(n):
        """several objects of several kinds at once"""
        kinds = ['Catalog', 'Document', 'CommonModule', 'Role', 'DataProcessor', 'Subsystem']
        for counts in itertools.product((0, 1, n), repeat=len(kinds)):
            yield dict(kind='cf', m=['app', 'help'], objs=[
                dict(t=t, n=f'{t}{i}', m=members(t), c=[dict(t=k, n=f'Вл{j}', **full(k)) for k in nested_types(t)
                                                        for j in range(2)])
                for t, c in zip(kinds, counts) for i in range(c)])


    @staticmethod
    def two():
        """a container for older platforms in front of the product: kept as it is"""
        text, nested = 'тест'.encode('utf-8-sig'), [['text', 'aa'], ['form', '']]
        fronts = [[['root', 'ff00']], [['b.0', nested]], [['b.0', nested], ['a', '41'], ['version', text.hex()]],
                  [['b.0', [['info', '31'], ['x', '00' * 600]]], ['d', '42' * 9000]], [['x' * 36 + '.0', [['в', '44']]], ['Я', '45']],
                  [[str(i), f'{i:02x}' * i] for i in range(90)], [['root', '41'], ['b.0', []]], [['b.0', []], ['c.0', nested]]]
        for front in fronts:
            for bits in (32, 64):
                for what in (dict(kind='cf', objs=[]), dict(kind='cf', m=['app'], objs=[dict(t='Catalog', n='С', m=['obj'])]),
                             dict(kind='cfe', objs=[dict(t='Catalog', n='С', m=['obj'])]),
                             dict(kind='epf', ver='803', m=['obj'], objs=[dict(t='Form', n='Ф', m=['obj'])])):
                    yield dict(what, front=front, bits=bits)


class P15(Check):
    id = 'P15'
    chunk = 8
    rule = 'product descriptions: one object of every kind x subsets of members (file/dir) x nested objects; pairs of ' \
           'kinds; nesting forests; names; templates x types x comments x payloads; forms x versions; root members; ' \
           'tables of contents; containers in front of the product; each with and without auto_include and with an empty descent'
    bound = {'quick': '<=2 nested objects per kind, <=4 nested subsystems', 'thorough': 'every member subset x every '
             'nested set, <=6 nested subsystems'}

    def setup(self):
        self.d = drive.Driver()

    def spaces(self, tier):
        deep = tier == 'thorough'

        def auto(gen, both=True):
            for x in gen:
                yield x
                if both:
                    yield dict(x, opt={'auto_include': True})
        out = [('roots', auto(Space.roots(), False)), ('toc', auto(Space.toc())), ('names', auto(Space.names())),
               ('templates', auto(Space.templates(), False)), ('forms', auto(Space.forms(), deep)),
               ('deep', auto(Space.deep(6 if deep else 4))), ('many', auto(Space.many(3 if deep else 2))),
               ('pairs', auto(Space.pairs(), deep)), ('objects', auto(Space.objects(deep), deep)),
               ('two', auto(Space.two())), ('fixtures', (dict(fixture=f, opt=o) for f in sorted(os.listdir(FIX))
                             for o in ({}, {'descent': 3000075100})))]
        out.append(('descent', (dict(x, opt={'descent': 3000075100}) for x in itertools.chain(
            Space.deep(3), Space.toc(), Space.roots() if deep else
            (x for x in Space.roots() if 'splash' in x.get('m', ())),
            (x for x in Space.objects(False) if x['objs'][0]['t'] in ('WSReference', 'XDTOPackage', 'Role'))))))
        return out

    def run(self, case):
        if 'fixture' in case:
            return self.fixture(case)
        opt = case.get('opt') or {}
        if 'front' in case:
            return self.two(case, opt)
        p = v8conf.Product(case)
        out = self.d.roundtrip(p.tree, opt or None)
        want = p
        if opt.get('auto_include'):
            # documented: nested objects come in alphabetical order
            want = v8conf.Product(in_order(case))
        self.count(executions=2, transitions=len(p.tree))
        diffs = want.compare(out)
        if diffs:
            self.fail(f'{len(diffs)} members differ after extract and build ({opt}): ' + '; '.join(diffs[:4]),
                      key=None)

    def two(self, case, opt):
        def inflated(data):
            data = zlib.decompress(data, -15)
            return [(n, x) for n, x in cfmt.parse(data)[0]['files']] if data[:4] == b'\xff\xff\xff\x7f' else data
        p = v8conf.Product(case)
        front = cfmt.write_container(cfmt.F32, [
            (n, v8conf.deflate(cfmt.write_container(cfmt.F32, [(k, bytes.fromhex(v)) for k, v in x]) if isinstance(x, list)
                               else bytes.fromhex(x))) for n, x in case['front']])
        self.d.start()
        self.d.extract(front + v8conf.pack(p.tree, cfmt.F64 if case['bits'] == 64 else cfmt.F32), options=opt or None)
        self.count(executions=2, transitions=len(p.tree) + len(case['front']))
        try:
            out = self.d.build(options=opt or None)
        except Exception as err:
            # the tool does not write empty containers, and says so
            if any(x == [] for _, x in case['front']) and 'Container is empty' in str(err):
                return
            raise
        diffs = p.compare(v8conf.unpack(out))
        if diffs:
            self.fail('the second container differs: ' + '; '.join(diffs[:4]))
        got = {n: inflated(x) for n, x in cfmt.parse(out)[0]['files']}
        want = {n: inflated(x) for n, x in cfmt.parse(front)[0]['files']}
        want = {n: sorted(x) if isinstance(x, list) else x for n, x in want.items()}
        got = {n: sorted(x) if isinstance(x, list) else x for n, x in got.items()}
        if got != want:
            self.fail(f'the first container holds {str(got)[:200]}, it held {str(want)[:200]}')

    def fixture(self, case):
        with open(os.path.join(FIX, case['fixture']), 'rb') as f:
            blob = f.read()
        tree = v8conf.unpack(blob, genuine=True)
        self.d.start()
        self.d.extract(blob, options=case['opt'] or None)
        out = v8conf.unpack(self.d.build(options=case['opt'] or None))
        self.count(executions=2, transitions=len(tree))
        diffs = []
        for name in sorted(set(tree) | set(out)):
            if name in ('versions', 'configinfo', 'copyinfo'):
                continue
            if name.startswith('d7825d26') and case['fixture'].startswith('cf1'):
                continue  # hand-edited file of the fixture: not a valid brace file (one bracket too many)
            if name in SHARED.get(case['fixture'], ()):
                continue
            a, b = tree.get(name), out.get(name)
            if a is None or b is None:
                diffs.append(f'{name} {"appeared" if a is None else "is lost"}')
            elif a != b and all(v8conf.same(k, a, b) for k in guess(a)):
                diffs.append(f'{name} {v8conf.same(guess(a)[0], a, b)}')
        if diffs:
            self.fail(f'{case["fixture"]}: {len(diffs)} members differ: ' + '; '.join(diffs[:4]))


FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures')


# forms of the fixture that hold one common area (includr_...) in two different states: the area is stored once
SHARED = {'edp802.epf': ('01eae762-1d0c-4c30-9088-fe5169760075.0/form', '4cfb2c31-5fa5-44be-99a5-2cd3410ed247.0/form'),
          'edp803.epf': ('67775aa5-793e-4c7e-aabb-463aca721f8f.0',)}


def guess(data):
    out = ['b64'] if b'base64:' in data else []
    try:
        v8conf.read_brace(data)
        return ['brace'] + out
    except Exception:
        pass
    return out + ['text']


def in_order(desc):
    d = dict(desc)
    for k in ('objs', 'c'):
        if d.get(k):
            kinds = []
            for o in d[k]:
                if o['t'] not in kinds:
                    kinds.append(o['t'])
            d[k] = [in_order(o) for t in kinds for o in sorted((x for x in d[k] if x['t'] == t), key=lambda x: x['n'])]
    return d


CHECK = P15()
