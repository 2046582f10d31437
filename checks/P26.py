"""Two versions of a form, both extracted: the description of the elements of the first is edited into that of the second
(elements, attributes, columns, commands and parameters added, removed, moved, put in another order, the first and the
last of them too), the way a person or a merge does it. The product built from the edited sources holds the second form
exactly."""
import itertools
import json
import os

from checks.P22 import ATTRS, forests
from checks.P24 import LABEL, fix, forests as panels, paged
from mc import drive, forms, v8conf
from mc.core import Check
from mc.forms import BUTTON, DECORATION, FIELD, GROUP, TABLE

POOL = {
    'attrs': [('Объект', 1, [], 0), ('Список', 2, [('Имя', 1), ('Код', 2)], 0), ('А', 5, [], 1)],
    'cmds': [('Выполнить', 1), ('Б', 5), ('А', 3)],
    'params': ['П', 'Р', 'С'],
    'cols': [('Имя', 1), ('Код', 2), ('А', 5)],
}
SECTION = {'attrs': 'props', 'cmds': 'commands', 'params': 'params'}


def orders(pool, top=3):
    """every ordered selection of up to top of them"""
    for n in range(min(top, len(pool)) + 1):
        yield from (list(p) for p in itertools.permutations(pool, n))


def labelled(elems, counts=None):
    """elements called by their kind and number, so that two forms have elements in common"""
    counts = {} if counts is None else counts
    out = []
    for e in elems:
        counts[e['k']] = counts.get(e['k'], 0) + 1
        name = f"{e['k']}{counts[e['k']]}"
        ids = [FIELD, GROUP, TABLE, BUTTON, DECORATION].index(e['k']) * 10 + counts[e['k']]
        out.append(dict(e, n=name, id=ids, c=labelled(e.get('c', ()), counts)))
    return out


def leaf(key):
    return key.rsplit('/', 1)[-1]


class P26(Check):
    id = 'P26'
    chunk = 8
    rule = 'pairs of ordered selections of attributes, columns, commands, parameters; pairs of forests of elements; ways ' \
           'to write an empty list; leftovers of removed elements; ordinary forms: attributes, controls over pages and ' \
           'panels, with and without --auto_include'
    bound = {'quick': 'selections of <=2 of 3; forests of <=2 into <=3 elements', 'thorough': 'of <=3 of 3; <=3 into <=3'}

    def setup(self):
        self.d = drive.Driver()

    def spaces(self, tier):
        deep = tier == 'thorough'
        top = 3 if deep else 2
        return [('lists', self.all_lists(top)), ('columns', self.all_columns(top)), ('elements', self.all_elements(top)),
                ('orders', self.all_orders()), ('attributes of ordinary', self.all_ordinary_attrs(top)),
                ('controls', self.all_controls(top)), ('pages', self.all_pages())]

    @staticmethod
    def all_lists(top):
        for group in SECTION:
            for a, b in itertools.product(orders(POOL[group], top), repeat=2):
                for empty in ('null', '[]'):
                    yield dict(a={group: a}, b={group: b}, empty=empty)
        for a, b in itertools.product(itertools.product((0, 1, 2), repeat=3), repeat=2):
            yield dict(a={g: POOL[g][:n] for g, n in zip(SECTION, a)}, b={g: POOL[g][3 - n:] for g, n in zip(SECTION, b)},
                       empty='[]')

    @staticmethod
    def all_columns(top):
        for a, b in itertools.product(orders(POOL['cols'], top), repeat=2):
            for empty in ('[]', 'none'):
                for shape in (0, 1):
                    yield dict(a=dict(attrs=[('Объект', 1), ('Список', 2, a, shape)]),
                               b=dict(attrs=[('Объект', 1), ('Список', 2, b, shape)]), empty=empty)

    @staticmethod
    def all_elements(top):
        kinds = (GROUP, TABLE, FIELD)
        first = [labelled(f) for n in range(top + 1) for f in forests(n, kinds)]
        second = [labelled(f) for n in range(4) for f in forests(n, kinds)]
        for a, b in itertools.product(first, second):
            for left in (False, True):
                for empty in ('null', '[]', 'none') if left else ('null',):
                    yield dict(a=dict(elems=a), b=dict(elems=b), empty=empty, left=left)
                if len(a) > 1:
                    yield dict(a=dict(elems=b), b=dict(elems=a), empty='[]', left=left)

    @staticmethod
    def all_orders():
        """the same elements in every order and every place, bound ones too"""
        elems = [dict(k=FIELD, n='Поле', id=1, link=['Список', 'Имя']), dict(k=BUTTON, n='Кнопка', id=2, cmd='Выполнить'),
                 dict(k=GROUP, n='Группа', id=3), dict(k=TABLE, n='Таблица', id=4, link=['Список'])]
        common = dict(attrs=POOL['attrs'], cmds=POOL['cmds'])

        def places():
            for order in itertools.permutations(range(4)):
                row = [dict(elems[i]) for i in order]
                yield row
                for at in range(4):
                    if row[at]['k'] in (GROUP, TABLE):
                        for j in range(1, 4):
                            inner = (row[at + 1:] + row[:at])[:j]
                            yield [dict(row[at], c=inner)] + [e for e in row if e is not row[at] and e not in inner]
        for area in ('', 'include_'):
            for a in itertools.islice(places(), 2):
                for b in places():
                    yield dict(a=dict(common, elems=[dict(k=GROUP, n=area + 'Г', id=9, c=a)]),
                               b=dict(common, elems=[dict(k=GROUP, n=area + 'Г', id=9, c=b)]), empty='null')

    @staticmethod
    def all_ordinary_attrs(top):
        pool = [('Объект', 1), ('Список', 7), ('А', 4)]
        elems = [dict(k=LABEL, n='Э1')]
        for ver in (27, 26):
            for a, b in itertools.product(orders(pool, top), repeat=2):
                for auto in (False, True):
                    for empty in ('null', '[]'):
                        yield dict(a=dict(ver=ver, pages=['С'], attrs=a, elems=elems), auto=auto, empty=empty,
                                   b=dict(ver=ver, pages=['С'], attrs=b, elems=elems))
                if a:
                    # a control that gets a data source: the first attribute of the form
                    bound = dict(ver=ver, pages=['С'], attrs=a, elems=[dict(k=7, n='Э1', link=a[0][0])])
                    bare = dict(ver=ver, pages=['С'], attrs=b, elems=[])
                    yield dict(a=bare, b=bound, auto=True, empty='[]')
                    yield dict(a=bound, b=bare, auto=True, empty='[]')

    @staticmethod
    def all_controls(top):
        def some(n, pages):
            for i in range(n + 1):
                for f in panels(i):
                    for elems in paged(f, pages):
                        yield [dict(e) for e in named(elems)]
        pages = ['С0', 'С1']
        second = list(some(2, 2))
        for a in some(1 if top < 3 else 2, 2):
            for b in second:
                for auto in (False, True):
                    yield dict(a=dict(pages=pages, elems=a), b=dict(pages=pages, elems=b), auto=auto, empty='[]')
                    yield dict(a=dict(pages=pages, elems=b), b=dict(pages=pages, elems=a), auto=auto, empty='[]', left=auto)
        if top < 3:
            for a, b in itertools.product(second[::5], second):
                yield dict(a=dict(pages=pages, elems=a), b=dict(pages=pages, elems=b), auto=True, empty='[]')

    @staticmethod
    def all_pages():
        """a page more or less at the end of the panel"""
        for n, m in itertools.product(range(1, 4), repeat=2):
            for k, l in itertools.product(range(4), repeat=2):
                for auto in (False, True):
                    for inner in (False, True):
                        def form(pages, count):
                            names = [f'С{i}' for i in range(pages)]
                            elems = [dict(k=LABEL, n=f'Э{i}', id=20 + i, page=i % pages, bind=[(1, 1, f'Э{i}', 0)])
                                     for i in range(count)]
                            if inner:
                                return dict(pages=['Х'], elems=[dict(k='Panel', n='П', id=5, pages=names, c=elems)])
                            return dict(pages=names, elems=elems)
                        yield dict(a=form(n, k), b=form(m, l), auto=auto, empty='[]', bound=True)

    # -- running ---------------------------------------------------------------------------------------------------
    def product(self, desc, auto, number=False):
        if auto is None:
            return v8conf.Product(dict(kind='cf', objs=[dict(t='CommonForm', n='Форма', form=desc)]))
        form = forms.Ordinary(fix(dict(elems=[], **desc) if 'elems' not in desc else desc), number=number)
        return v8conf.Product(dict(kind='epf', ver='803', objs=[dict(t='Form', n='Форма', uf=0, form=form)]))

    def run(self, case):
        auto = case.get('auto')
        a, b = (tuples(case[x]) if auto is None else case[x] for x in 'ab')
        options = {'auto_include': True} if auto or auto is None else {}
        self.d.start()
        self.d.extract(v8conf.pack(self.product(b, auto).tree), src='Б', options=options)
        theirs = self.docs('Б')
        self.d.start()
        p = self.product(a, auto)
        self.d.extract(v8conf.pack(p.tree), options=options)
        own = self.docs('src')
        if set(own) != set(theirs):
            self.fail(f'descriptions {sorted(own)} and {sorted(theirs)}')
        for path, doc in own.items():
            self.edit(path, doc, theirs[path], case)
        want = self.product(b, auto, number=bool(auto))
        self.count(executions=3, transitions=len(p.tree))
        diffs = want.compare(v8conf.unpack(self.d.build(options=options)))
        if diffs:
            self.fail('the edited form differs: ' + '; '.join(diffs[:4]))

    def docs(self, src):
        top = self.d.at('w', src)
        return {os.path.relpath(os.path.join(d, f), self.d.at('w', src)): json.load(open(os.path.join(d, f), encoding='utf-8'))
                for d, _, ff in os.walk(top) for f in ff if f.endswith('.elem.json')}

    def edit(self, path, doc, theirs, case):
        none = None if case['empty'] == 'null' else []
        for section in ('props', 'commands', 'params'):
            if section in theirs:
                mine = {x['name']: x for x in doc[section] or []}
                doc[section] = [mine.get(x['name'], x) for x in theirs[section] or []] or none
                for x, y in zip(doc[section] or [], theirs[section] or []):
                    if x is not y and (x.get('child') or y.get('child')):
                        cols = {c['name']: c for c in x.get('child') or []}
                        x['child'] = [cols.get(c['name'], c) for c in y.get('child') or []] or none
                        if case['empty'] == 'none' and not x['child']:
                            del x['child']
        old = doc['data']
        if case.get('auto') is None or case['auto']:
            mine = {leaf(k): v for k, v in old.items() if isinstance(v, dict) and ('id' in v or case.get('auto') is None)}
        else:
            mine = {}
        data = dict(old) if case.get('left') else {}
        for k, v in theirs['data'].items():
            # what it is bound to is written with the page it was on
            if leaf(k) in mine and (k in old or not case.get('bound')):
                data[k] = mine[leaf(k)]
            elif k in old and (leaf(k) != '-pages-' or case.get('auto')):     # pages follow the tree there
                data[k] = old[k]
            else:
                data[k] = v
        doc['data'] = data
        doc['tree'] = written(theirs['tree'], case['empty'])
        with open(os.path.join(self.d.at('w', 'src'), path), 'w', encoding='utf-8') as f:
            json.dump(doc, f, ensure_ascii=False, indent=2)


def written(tree, empty):
    if not tree:
        return None if empty == 'null' else []
    out = []
    for x in tree:
        x = dict(x)
        if 'child' in x and not isinstance(x['child'], str):
            x['child'] = written(x['child'], empty) if x.get('type') not in ('Page', 'Panel') else \
                written(x['child'], '[]')
            if empty == 'none' and not x['child']:
                del x['child']
        out.append(x)
    return out


def named(elems, ids=None):
    """numbers and names by the kind of the control, so that two forms have controls in common"""
    ids = {} if ids is None else ids
    out = []
    for e in elems:
        ids[e['k']] = ids.get(e['k'], 0) + 1
        n = f"{'П' if e['k'] == 'Panel' else 'Э'}{ids[e['k']]}"
        e = dict(e, n=n, id=(30 if e['k'] == 'Panel' else 10) + ids[e['k']])
        if e['k'] == 'Panel':
            e['c'] = named(e['c'], ids)
        out.append(e)
    return out


def tuples(desc):
    def walk(elems):
        return [dict(e, c=walk(e.get('c', ())), link=tuple(e['link']) if e.get('link') else None) for e in elems]
    return dict(desc, elems=walk(desc.get('elems', ())))


CHECK = P26()
