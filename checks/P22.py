"""Managed forms written from genuine records of every kind of element, attribute, command and parameter: every shape
in every position, every forest of elements up to the node bound, every set of attributes with columns and commands
with every kind of link. Extraction lists every element, attribute, command and parameter where it is and what it is
bound to; the product built again holds the same form."""
import itertools
import json
import os

from mc import drive, forms, v8conf
from mc.core import Check
from mc.forms import ADDITION, BUTTON, DECORATION, FIELD, GROUP, TABLE

KINDS = (FIELD, BUTTON, DECORATION, GROUP, TABLE, ADDITION)
FOREIGN = '39bb0fe9-771d-4dd5-8a6e-2d16984523af'
NODE = {k: dict(k=k) for k in KINDS}


def forests(n, kinds, depth=9):
    """ordered forests of n elements"""
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        if k > 1 and depth == 0:
            continue
        for inner in forests(k - 1, kinds, depth - 1):
            for kind in kinds:
                if inner and kind not in (GROUP, TABLE):
                    continue
                for rest in forests(n - k, kinds, depth):
                    yield [dict(k=kind, c=inner) if inner else dict(k=kind)] + rest


def named(elems, area='', counter=None, prefix='Э'):
    """every element a name of its own; the roots of the form's elements called like areas when asked"""
    counter = counter or itertools.count(1)
    out = []
    for e in elems:
        e = dict(e, n=e.get('n') or f'{area}{prefix}{next(counter)}')
        if e.get('c'):
            e['c'] = named(e['c'], '', counter, prefix)
        out.append(e)
    return out


ATTRS = [
    [], [('Объект', 1, [], 0)], [('Объект', 1, [], 0), ('Список', 2, [('Имя', 1), ('Код', 2)], 0)],
    [('Список', 7, [('Имя', 3)], 1), ('А', 2), ('Б', 10, [('Имя', 7), ('А', 2), ('Б', 10)])],
]
CMDS = [[], [('Выполнить', 1)], [('Б', 5), ('А', 1), ('Выполнить', 10)]]


def links(attrs):
    """every way a field is bound: not at all, to every attribute and column by name, to something else that is no
    attribute though its number is the same"""
    yield None
    for a in attrs:
        yield (a[0],)
        for c, i in (a[2] if len(a) > 2 else ()):
            yield a[0], c
            yield [[str(a[1])], [str(i), FOREIGN]]                      # a requisite of the attribute's type
            yield [[str(a[1]), forms.ELEMENTS_OF_FORM], [str(i)]]        # current data of the form's table element
            yield [[str(a[1])], [str(i)], ['0']]
        yield [[str(a[1]), forms.ELEMENTS_OF_FORM]]
        yield [[str(a[1])], ['0', FOREIGN]]
        yield [[str(a[1])], ['999']]
    yield [['999']]
    yield [['999', forms.ELEMENTS_OF_FORM], ['10008']]


def commands(cmds):
    yield None
    for n, i in cmds:
        yield n
        yield [str(i), FOREIGN]                                         # a standard command of the platform
    yield ['999', FOREIGN]


class P22(Check):
    id = 'P22'
    chunk = 8
    rule = 'genuine record shapes x positions x form versions; ordered forests of elements; attribute sets x columns x ' \
           'links; command sets x links; parameters; each plain and inside include areas; forms of every owner'
    bound = {'quick': 'forests of <=3 elements of every kind and <=5 of groups and fields', 'thorough': '<=4 / <=7'}

    def setup(self):
        self.d = drive.Driver()

    def spaces(self, tier):
        deep = tier == 'thorough'
        return [('shapes', self.all_shapes()), ('stretched', self.all_stretched()), ('links', self.all_links(deep)), ('lists', self.all_lists(deep)),
                ('parents', self.all_parents()), ('areas', self.all_areas(4 if deep else 3)), ('moved', self.all_moved()), ('unknown', self.all_unknown()),
                ('forests', self.all_forests(4 if deep else 3, KINDS)),
                ('groups', self.all_forests(7 if deep else 5, (GROUP, FIELD))),
                ('mixed', self.all_forests(5 if deep else 4, (GROUP, TABLE, BUTTON)))]

    @staticmethod
    def all_shapes():
        roots = len(forms.records()['root'])
        for k in KINDS:
            for v in range(len(forms.shapes(k))):
                for root in range(roots):
                    e = dict(k=k, v=v)
                    yield dict(root=root, elems=named([e]))
                    yield dict(root=root, elems=named([dict(k=GROUP, c=[e])]))
                    for g in range(len(forms.shapes(TABLE))):
                        if k in (FIELD, GROUP, TABLE):
                            yield dict(root=root, elems=named([dict(k=TABLE, v=g, c=[e, e])]))
                    yield dict(root=root, elems=named([dict(k=GROUP, c=[e, dict(k=FIELD), e]), e]))
                    if k in (GROUP, TABLE):
                        yield dict(root=root, elems=named([dict(e, c=[dict(k=FIELD)])]))
                        yield dict(root=root, elems=named([dict(e, c=[dict(k=GROUP, c=[e, e])]), e]))

    @staticmethod
    def all_stretched():
        for k in KINDS:
            sets = range(len(forms.counters(k)))
            for x in [c for n in range(1, 3) for c in itertools.combinations_with_replacement(sets, n)]:
                for v in range(len(forms.shapes(k))):
                    e = dict(k=k, v=v, x=x)
                    if k in forms.PROP:
                        e['link'] = ('Объект',)
                    if k in forms.CMD:
                        e['cmd'] = 'Выполнить'
                    for area in ('', 'include_'):
                        yield dict(attrs=ATTRS[1], cmds=CMDS[1], elems=[dict(k=GROUP, n=area + 'Г', c=named([e]))])
                    if k in forms.KIDS:
                        yield dict(elems=named([dict(e, link=None, c=[dict(k=FIELD), dict(k=k, x=x)])]))

    @staticmethod
    def all_forests(top, kinds):
        for n in range(top + 1):
            for f in forests(n, kinds):
                yield dict(elems=named(f))

    @staticmethod
    def all_areas(top):
        """any element an area of any kind, one inside another"""
        for n in range(1, top + 1):
            for f in forests(n, (GROUP, TABLE, FIELD)):
                holders = json.dumps(f).count(GROUP) + json.dumps(f).count(TABLE)
                for kinds in itertools.product(('', 'include_core_', 'includr_core_', 'include_'), repeat=holders):
                    it, num = iter(kinds), itertools.count(1)

                    def walk(elems):
                        return [dict(e, n=f'{"" if e["k"] == FIELD else next(it)}Э{next(num)}', c=walk(e.get('c', ())))
                                for e in elems]
                    if n > 2 and len(set(kinds)) > 2:
                        continue
                    yield dict(attrs=ATTRS[1], cmds=CMDS[1], elems=walk(f), areas=True)

    def areas(self, case):
        form = {k: v for k, v in case.items() if k != 'areas'}

        def own(elems):
            """the same with the areas it takes from others as its own"""
            return [dict(e, n=e['n'].replace('includr_', 'include_')) if e['n'].startswith('includr_') else
                    e if e['n'].startswith('include_') else dict(e, c=own(e.get('c', ()))) for e in elems]
        owner = dict(form, elems=own(form['elems']))
        p = v8conf.Product(self.product(form))
        self.d.start()
        if owner != form:
            self.d.extract(v8conf.pack(v8conf.Product(self.product(owner)).tree), src='Б')
        self.d.extract(v8conf.pack(p.tree), src='А')
        self.count(executions=2, transitions=len(p.tree))
        diffs = p.compare(v8conf.unpack(self.d.build('А')))
        if diffs:
            self.fail('the form differs after extract and build: ' + '; '.join(diffs[:4]))

    @staticmethod
    def all_links(deep):
        for ai, attrs in enumerate(ATTRS):
            for link in links(attrs):
                for k in (FIELD, TABLE):
                    for v in range(len(forms.shapes(k))):
                        for area in ('', 'include_'):
                            e = dict(k=k, v=v, link=link, n='Поле')
                            yield dict(attrs=attrs, elems=[dict(k=GROUP, n=area + 'Группа', c=[e])])
                            if deep or not v:
                                yield dict(attrs=attrs, elems=[dict(e, n=area + 'Поле')])
        for cmds in CMDS:
            for cmd in commands(cmds):
                for v in range(len(forms.shapes(BUTTON))):
                    for area in ('', 'include_'):
                        e = dict(k=BUTTON, v=v, cmd=cmd, n='Кнопка')
                        yield dict(cmds=cmds, elems=[dict(k=GROUP, n=area + 'Группа', c=[e])])
                        yield dict(cmds=cmds, elems=[dict(k=GROUP, n=area + 'Группа', c=[
                            dict(k=TABLE, n='Т', c=[dict(k=GROUP, n='Г', c=[e])])])])
                        yield dict(cmds=cmds, elems=[dict(e, n=area + 'Кнопка')])

    @staticmethod
    def all_lists(deep):
        shapes = len([k for k, _ in forms.records()['attr'] if k[0] != 'child'])
        for root in range(len(forms.records()['root'])):
            for na, nc, np in itertools.product(range(4 if deep else 3), repeat=3):
                for kids in itertools.product(range(3), repeat=na):
                    yield dict(root=root, attrs=[(f'Реквизит{i}', 5 - i, [(f'К{j}', j + 1) for j in range(k)], i)
                                                 for i, k in enumerate(kids)],
                               cmds=[(f'К{i}', 9 - i) for i in range(nc)], params=[f'П{i}' for i in range(np)],
                               elems=named([dict(k=FIELD)]) if na else [])
        for a, b in itertools.product(range(shapes), repeat=2):
            for kids in ([], [('К', 1)], [('К', 2), ('Л', 1)]):
                yield dict(attrs=[('А', 1, kids, a), ('Б', 2, kids[:1], b)], elems=[])

    @staticmethod
    def all_parents():
        """the attribute of the owner's own type: 'Родитель' in the sources, the owner's identifier in the product"""
        for owner in ('Catalog', 'Document', 'DataProcessor', 'epf', 'erf', 'Report', 'CommonForm'):
            for at, n, own in itertools.product(range(3), (1, 2), ('parent', 'parents')):
                    yield dict(owner=owner, attrs=[('Объект', 4, [], own if i == at else 0) if i else
                                                   ('Первый', 1, [('К', 1)], own if i == at else 0)
                                                   for i in range(n + 1)], elems=named([dict(k=FIELD)]))

    @staticmethod
    def all_moved():
        """the folder of a form moved to another object"""
        for owner in ('Catalog', 'Document'):
            for other in ('Catalog', 'Document'):
                for at in range(2):
                    yield dict(owner=owner, to=other, attrs=[
                        (n, i + 1, [], 'parent' if i == at else 0) for i, n in enumerate(('Объект', 'Второй'))],
                        elems=named([dict(k=FIELD)]))

    @staticmethod
    def all_unknown():
        """something in the form the program knows nothing about"""
        for what in ('uuid', 'noname', 'short', 'attr', 'column', 'cmd', 'param'):
            for area in ('', 'include_'):
                for n in range(1, 4):
                    for f in forests(n, (GROUP, FIELD)):
                        for nth in range(n):
                            if nth and what in ('attr', 'column', 'cmd', 'param'):
                                continue
                            yield dict(attrs=ATTRS[3], cmds=CMDS[2], params=['П', 'Р'], elems=named(f, area), unknown=what,
                                       nth=nth)

    @staticmethod
    def spoil(form, case):
        what, body = case['unknown'], form.body

        def records(raw, i):
            for j in range(int(raw[i])):
                yield raw, i + 1 + 2 * j
                kind, kid = forms.KIND[raw[i + 1 + 2 * j]], raw[i + 2 + 2 * j]
                if kind in forms.KIDS:
                    yield from records(kid, forms.at(forms.KIDS[kind], kid))
        if what in ('uuid', 'noname', 'short'):
            raw, at = list(records(body[1], forms.root_elements(body[1])))[case['nth']]
            if what == 'uuid':
                raw[at] = '11111111-2222-4333-8444-555555555555'
            elif what == 'noname':
                raw[at + 1][forms.at(forms.NAME[forms.KIND[raw[at]]], raw[at + 1])] = ['"' + 'Э"']
            else:
                raw[at + 1] = raw[at + 1][:3]
        elif what == 'attr':
            body[3][3] = body[3][3][:3]
        elif what == 'column':
            body[3][2][14] = body[3][2][14][:3]
        else:
            items = body[{'cmd': 5, 'param': 4}[what]]
            items[3] = items[3][:1]
        return form

    def kept(self, case):
        form = self.spoil(forms.Managed(case), case)
        p = v8conf.Product(self.product(dict(owner='CommonForm', raw=form.raw)))
        self.d.start()
        self.d.extract(v8conf.pack(p.tree))
        diffs = p.compare(v8conf.unpack(self.d.build()))
        self.count(executions=2, transitions=len(p.tree))
        if diffs:
            self.fail('the form differs after extract and build: ' + '; '.join(diffs[:4]))

    def move(self, case):
        form = {k: v for k, v in case.items() if k not in ('owner', 'to')}
        a, b = case['owner'], case['to']
        kind, kind2 = v8conf.TYPES[a]['form'], v8conf.TYPES[b]['form']
        here = dict(t=a, n='Первый', c=[dict(t=kind, n='Форма', form=form, m=[])])
        there = dict(t=b, n='Второй', c=[dict(t=kind2, n='Форма', form=form, m=[])])
        p = v8conf.Product(dict(kind='cf', objs=[here, dict(there, c=[])]))
        want = v8conf.Product(dict(kind='cf', objs=[dict(here, c=[]), there]))
        u, u2 = [next(u for _, t, u, n in x.objects if n == 'Форма') for x in (p, want)]
        self.d.start()
        src = self.d.extract(v8conf.pack(p.tree), options={'auto_include': True})
        old, new = os.path.join(src, a, 'Первый', kind), os.path.join(src, b, 'Второй', kind2)
        os.makedirs(new, exist_ok=True)
        os.rename(os.path.join(old, 'Форма'), os.path.join(new, 'Форма'))
        for d, _, ff in os.walk(os.path.join(new, 'Форма')):
            for f in ff:
                os.rename(os.path.join(d, f), os.path.join(d, f.replace(kind + '.', kind2 + '.', 1)))
        out = v8conf.unpack(self.d.build(options={'auto_include': True}))
        self.count(executions=2, transitions=len(p.tree))
        got = out.get(f'{u}.0')
        diff = 'is not in the product' if got is None else v8conf.same('brace', want.tree[f'{u2}.0'], got)
        if diff:
            self.fail(f'form moved from {a} to {b}: {diff}')

    def product(self, case):
        form = case.get('raw') or {k: v for k, v in case.items() if k != 'owner'}
        owner = case.get('owner', 'CommonForm')
        if owner in ('epf', 'erf'):
            return dict(kind=owner, ver='803', objs=[dict(t='Form', n='Форма', form=form)])
        if owner == 'CommonForm':
            return dict(kind='cf', objs=[dict(t='CommonForm', n='Форма', form=form)])
        kind = v8conf.TYPES[owner]['form']
        return dict(kind='cf', objs=[dict(t=owner, n='Владелец', c=[dict(t=kind, n='Форма', form=form)])])

    def run(self, case):
        case = fix(case)
        if 'to' in case:
            return self.move(case)
        if 'areas' in case:
            return self.areas(case)
        if 'unknown' in case:
            return self.kept(case)
        form = forms.Managed({k: v for k, v in case.items() if k != 'owner'})
        p = v8conf.Product(self.product(case))
        self.d.start()
        src = self.d.extract(v8conf.pack(p.tree))
        self.count(executions=2, transitions=len(p.tree))
        found = [os.path.join(d, f) for d, _, ff in os.walk(self.d.at('w', 'src')) for f in ff if f.endswith('.elem.json')
                 ]
        self.listed(case, form, found, src)
        out = v8conf.unpack(self.d.build())
        diffs = p.compare(out)
        if diffs:
            self.fail('the form differs after extract and build: ' + '; '.join(diffs[:4]))

    def listed(self, case, form, found, src):
        own = [f for f in found if os.path.basename(f).endswith('Form.elem.json')]
        if len(own) != 1:
            self.fail(f'{len(own)} descriptions of elements of the form')
        doc = json.load(open(own[0], encoding='utf-8'))
        data, tree = dict(doc['data'] or {}), doc['tree'] or []
        # contents of the area files belong to the form too (how they are split is the business of P08)
        for f in found:
            if f != own[0]:
                part = json.load(open(f, encoding='utf-8'))
                data.update(part['data'])
        for group in ('attrs', 'cmds', 'params'):
            got = [x['name'] for x in doc[{'attrs': 'props', 'cmds': 'commands', 'params': 'params'}[group]] or []]
            want = [x[0] if group != 'params' else x for x in case.get(group, ())]
            if got != want:
                self.fail(f'{group} listed as {got}, the form has {want}')
        for got, want in zip(doc['props'] or [], case.get('attrs', ())):
            cols = [x['name'] for x in got.get('child', [])]
            if cols != [c for c, _ in (want[2] if len(want) > 2 else ())]:
                self.fail(f'columns of {want[0]} listed as {cols}')
            if len(want) > 3 and want[3] in ('parent', 'parents') and case['owner'] in ('epf', 'Catalog', 'Document') \
                    and got['raw'][5][1][1] != 'Родитель':
                self.fail(f'type of the owner is kept as {got["raw"][5][1][1]}')
        if not self.area(case):
            if shape(tree) != shape(form.tree):
                self.fail(f'elements listed as {shape(tree)}, the form has {shape(form.tree)}')
            want = form.links
            if set(data) != set(want):
                self.fail(f'element data {sorted(data)}, the form has {sorted(want)}')
            for k, w in want.items():
                got = {n: data[k][n] for n in ('ПутьКДанным', 'ИмяКоманды') if data[k].get(n)}
                if got != w:
                    self.fail(f'element {k} listed as bound to {got}, it is bound to {w}')

    @staticmethod
    def area(case):
        return any(e['n'].startswith(('include_', 'includr_')) for e in case['elems'])


def shape(tree):
    return [(x['name'], x['type'], shape(x.get('child') or [])) for x in tree]


def fix(case):
    """names of links come back from json as lists"""
    def walk(elems):
        return [dict(e, c=walk(e.get('c', ())), link=tuple(e['link']) if e.get('link') and isinstance(e['link'][0], str)
                     else e.get('link')) for e in elems]
    return dict(case, elems=walk(case.get('elems', ())))


CHECK = P22()
