"""Two products whose forms share an include area of elements, with the same attributes and commands under different
numbers: every small set of bound elements, in every nesting, with every renumbering, extraction order and kind of
area. Each product built from the common sources has the area bound to its own attributes and commands; where one of
them is missing the build fails."""
import itertools
import os

from mc import drive, forms, v8conf
from mc.core import Check
from mc.forms import BUTTON, DECORATION, FIELD, GROUP, TABLE

STD = '39bb0fe9-771d-4dd5-8a6e-2d16984523af'
# the elements areas are made of
MENU = [
    dict(k=FIELD, link=['Объект']), dict(k=FIELD, link=['Список', 'Имя']), dict(k=FIELD, link=['Список', 'Код']),
    dict(k=FIELD, link=['Имя'], v=1), dict(k=TABLE, link=['Список']), dict(k=TABLE, link=['Список', 'Имя']),
    dict(k=BUTTON, cmd='Выполнить'), dict(k=BUTTON, cmd='Имя', v=2), dict(k=BUTTON, cmd=['1', STD]),
    dict(k=FIELD, link=[['1'], ['7', STD]]), dict(k=FIELD, link=[['1', forms.ELEMENTS_OF_FORM], ['2']]),
    dict(k=FIELD), dict(k=DECORATION), dict(k=BUTTON),
]
HERE = dict(attrs=[('Объект', 1), ('Список', 2, [('Имя', 1), ('Код', 2)]), ('Имя', 3)],
            cmds=[('Выполнить', 1), ('Имя', 2)])
# the same attributes and commands in the other form
OTHERS = [
    HERE,
    dict(attrs=[('Список', 1, [('Код', 1), ('Имя', 2)]), ('Имя', 2), ('Объект', 3)], cmds=[('Имя', 1), ('Выполнить', 2)]),
    dict(attrs=[('Чужой', 1, [('Имя', 1), ('Код', 2)]), ('Объект', 10), ('Имя', 2), ('Список', 7, [('Х', 1), ('Имя', 5), (
        'Код', 10)])], cmds=[('Чужая', 1), ('Выполнить', 7), ('Имя', 10)]),
]


def nest(kids, how):
    if how == 'flat':
        return kids
    if how == 'group':
        return [dict(k=GROUP, n='Внутри', c=kids)]
    if how == 'table':
        return [dict(k=TABLE, n='Таблица', link=['Список'], c=kids)]
    if how == 'both':
        return [dict(k=GROUP, n='Внутри', c=[dict(k=TABLE, n='Таблица', link=['Список'], c=kids[:1]), *kids[1:]])]
    return [dict(k=GROUP, n='Внутри', c=[dict(k=GROUP, n='Глубже', c=kids)])]


def uses(elems):
    for e in elems:
        if isinstance(e.get('link'), list) and e['link'] and isinstance(e['link'][0], str):
            yield tuple(e['link'])
        if isinstance(e.get('cmd'), str):
            yield e['cmd']
        yield from uses(e.get('c', ()))


class P23(Check):
    id = 'P23'
    chunk = 8
    rule = 'sets of elements with every kind of link x nesting x numbering of attributes, columns and commands in the ' \
           'other form x include/includr x order of extraction; every attribute, column and command missing'
    bound = {'quick': 'areas of <=2 elements', 'thorough': 'areas of <=3 elements'}

    def setup(self):
        self.d = drive.Driver()

    def spaces(self, tier):
        top = 3 if tier == 'thorough' else 2

        def areas(n, hows=('flat', 'group', 'table', 'both', 'deep')):
            for picks in itertools.product(range(len(MENU)), repeat=n):
                if n > 1 and picks != tuple(sorted(picks)):
                    continue
                for how in hows:
                    yield nest([dict(MENU[i], n=f'Э{j}') for j, i in enumerate(picks)], how)

        def same():
            for n in range(1, top + 1):
                for area in areas(n, ('flat', 'group', 'table', 'both', 'deep') if n < 2 or top > 2 else ('flat', 'both')):
                    for other in range(len(OTHERS)):
                        for kind in ('include_', 'includr_', 'includr_old'):
                            for order in ((0, 1), (1, 0)):
                                if kind == 'includr_old' and order == (1, 0):
                                    continue
                                yield dict(area=area, other=other, kind=kind, order=order)

        def missing():
            for area in areas(1):
                for use in sorted(set(uses(area)), key=str):
                    for other in range(len(OTHERS)):
                        for kind in ('include_', 'includr_old'):
                            yield dict(area=area, other=other, kind=kind, order=(0, 1), without=use)
        def changed():
            """the area got elements, lost all of them or got others since the product with it was saved"""
            some = [[]] + [nest([dict(MENU[i], n=f'Э{j}') for j, i in enumerate(p)], how) for p in ((0,), (4,), (6,), (11, 12))
                           for how in ('flat', 'group', 'table', 'deep')]
            for area, was in itertools.product(some, some):
                for other in range(len(OTHERS)):
                    yield dict(area=area, other=other, kind='includr_old', order=(0, 1), was=was)
        return [('same', same()), ('missing', missing()), ('changed', changed())]

    @staticmethod
    def form(names, elems, root='include_core_Блок'):
        return dict(attrs=names['attrs'], cmds=names['cmds'], params=['П'], elems=[
            dict(k=FIELD, n='Своё', id=49, link=('Объект',) if any(a[0] == 'Объект' for a in names['attrs']) else None),
            dict(k=GROUP, n=root, id=50, c=elems), dict(k=BUTTON, n='Своя', id=51)])

    def run(self, case):
        area = numbered(case['area'])
        names = OTHERS[case['other']]
        root = case['kind'][:8] + 'core_Блок'
        a = v8conf.Product(product('А', self.form(HERE, area)))
        want = v8conf.Product(product('Б', self.form(names, area, root)))
        was = want
        if case['kind'] == 'includr_old':
            # the product was saved before the area got its present elements
            was = v8conf.Product(product('Б', self.form(names, numbered(case.get('was', [dict(k=FIELD, n='Старое', id=99)])), root)))
        if case.get('without'):
            without(names := dict(names), case['without'])
            # the form without the attribute cannot have the bound element itself
            was = v8conf.Product(product('Б', self.form(names, [], root)))
        self.d.start()
        blobs = [(v8conf.pack(a.tree), 'А'), (v8conf.pack(was.tree), 'Б')]
        for i in case['order']:
            self.d.extract(blobs[i][0], src=blobs[i][1])
        if case.get('without') and case['kind'] == 'include_':
            self.d.extract(blobs[0][0], src='А')
        self.count(executions=4, transitions=len(a.tree) + len(want.tree))
        if not case.get('without'):
            # before the includr form is extracted the area file comes from its owner in any order
            self.same(a, 'А')
            self.same(want, 'Б')
            return
        self.same(a, 'А')
        try:
            self.d.build('Б')
        except Exception as err:
            text = str(err)
            if 'Нет свойства' not in text and 'Нет команды' not in text:
                self.fail(f'the build fails for another reason: {text[:300]}')
        else:
            self.fail(f'the form has no {case["without"]}, the area bound to it was built without an error')

    def same(self, want, src):
        diffs = want.compare(v8conf.unpack(self.d.build(src)))
        if diffs:
            self.fail(f'product {src}: ' + '; '.join(diffs[:3]))


def product(name, form):
    return dict(kind='epf', ver='803', n=name, objs=[dict(t='Form', n='Форма', form=form, m=[])])


def numbered(elems, ids=None):
    ids = ids or itertools.count(60)
    return [dict(e, id=next(ids), link=tuple(e['link']) if e.get('link') and isinstance(e['link'][0], str) else
            e.get('link'), c=numbered(e.get('c', ()), ids)) for e in elems]


def without(names, use):
    if isinstance(use, str):
        names['cmds'] = [c for c in names['cmds'] if c[0] != use]
    elif len(use) == 1:
        names['attrs'] = [a for a in names['attrs'] if a[0] != use[0]]
    else:
        names['attrs'] = [(a[0], a[1], [c for c in a[2] if c[0] != use[1]]) if a[0] == use[0] else a
                          for a in names['attrs']]


CHECK = P23()
