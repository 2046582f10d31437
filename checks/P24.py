"""Ordinary forms written from genuine records of every kind of control: every kind in every place, every forest of
controls over panels with pages up to the node bound, every binding of borders between controls, every data source.
Extraction lists them where they are; the product built without --auto_include holds the same form, with
--auto_include the same form with controls grouped by page and numbered anew, all references following."""
import itertools
import json
import os

from mc import drive, forms, v8conf
from mc.core import Check

FOREIGN = '39bb0fe9-771d-4dd5-8a6e-2d16984523af'
LABEL, FIELD = 0, 7


def forests(n, depth=9):
    """ordered forests of n controls, panels and others"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for inner in forests(k - 1, depth - 1):
            for kind in ('Panel', LABEL):
                if inner and kind == LABEL or k > 1 and depth == 0:
                    continue
                for rest in forests(n - k, depth):
                    yield ((kind, inner),) + rest


def paged(forest, pages, counter=None, names=None):
    """every assignment of pages (all panels have as many)"""
    counter = counter or itertools.count(1)

    def size(f):
        return sum(1 + size(c) for _, c in f)
    for places in itertools.product(range(pages), repeat=size(forest)):
        it, num = iter(places), itertools.count(1)

        def walk(f):
            out = []
            for kind, c in f:
                e = dict(k=kind, n=f'Э{next(num)}', page=next(it))
                if kind == 'Panel':
                    e['pages'] = [f'Страница{i}' for i in range(pages)]
                    e['c'] = walk(c)
                out.append(e)
            return out
        yield walk(forest)


ATTRS = [[], [('Объект', 1)], [('Объект', 1), ('Список', 7), ('А', 3)]]


def sources(attrs):
    yield None
    for n, i in attrs:
        yield n
        yield [[str(i)], ['0', FOREIGN]]
        yield [[str(i)], ['12']]
        yield [[str(i)], ['12'], ['0', FOREIGN]]
    yield [['999']]
    yield [['999'], ['0', FOREIGN]]


class P24(Check):
    id = 'P24'
    chunk = 8
    rule = 'kinds of controls x places x pages; ordered forests of controls and panels x pages; bindings of borders ' \
           'x targets x sides; attributes x data sources; guide lines beyond those of the pages; unknown controls in every place; two forms sharing a panel; ' \
           'each with and without --auto_include, form versions 26 and 27'
    bound = {'quick': 'forests of <=4 controls on 2 pages, pairs of bindings', 'thorough': '<=5 on 2, <=4 on 3 pages, '
             'triples of bindings'}

    def setup(self):
        self.d = drive.Driver()

    def spaces(self, tier):
        deep = tier == 'thorough'
        return [('kinds', self.both(self.all_kinds())), ('sources', self.both(self.all_sources(deep))),
                ('bindings', self.both(self.all_bindings(3 if deep else 2))),
                ('forests', self.both(self.all_forests(5 if deep else 4, 2))),
                ('pages', self.both(self.all_forests(4 if deep else 3, 3))),
                ('lines', self.both(self.all_lines(4 if deep else 3))),
                ('unknown', self.both(self.all_unknown())),
                ('shared', self.all_shared(deep)), ('page areas', self.all_page_areas(deep))]

    @staticmethod
    def both(cases):
        for c in cases:
            for auto in (False, True):
                yield dict(form=c, auto=auto)

    @staticmethod
    def all_kinds():
        for ver in (27, 26):
            for k in list(range(len(forms.controls()))) + ['Panel']:
                e = dict(k=k, n='Э1', pages=['А']) if k == 'Panel' else dict(k=k, n='Э1')
                two = dict(e, n='Э2', page=1)
                for pages in (['А'], ['А', 'Б'], ['Э1', 'А', 'Э2']):
                    last = len(pages) - 1
                    yield dict(ver=ver, pages=pages, elems=[e])
                    yield dict(ver=ver, pages=pages, elems=[dict(e, page=last)])
                    for at in range(len(pages)):
                        yield dict(ver=ver, pages=['Х', 'У'], elems=[dict(
                            k='Panel', n='П', page=1, pages=pages, c=[dict(e, page=at), dict(two, page=last)])])
                        yield dict(ver=ver, pages=['Х'], elems=[dict(k='Panel', n='П', pages=['Х'], c=[dict(
                            k='Panel', n='П2', pages=pages, c=[dict(two, page=last), dict(e, page=at)])])])

    @staticmethod
    def all_forests(top, pages):
        for n in range(top + 1):
            for f in forests(n):
                for elems in paged(f, pages):
                    yield dict(pages=[f'С{i}' for i in range(pages)], elems=elems)

    @staticmethod
    def all_sources(deep):
        for ver in (27, 26):
            for attrs in ATTRS:
                for a, b in itertools.product(sources(attrs), repeat=2):
                    one, two = dict(k=FIELD, n='Э1', link=a), dict(k=FIELD, n='Э2', page=1, link=b)
                    yield dict(ver=ver, attrs=attrs, pages=['А', 'Б'], elems=[two, one])
                    yield dict(ver=ver, attrs=attrs, pages=['А', 'Б'], elems=[
                        one, dict(k='Panel', n='П', pages=['В', 'Г'], link=b, c=[dict(two, link=a), dict(k=1, n='Э3')])])

    @staticmethod
    def all_bindings(top):
        ways = [(b, w) for b in range(6) for w in (1, 2)]
        sides = range(5)
        for b, w in ways:
            for target in ('panel', 'Э1', 'Э2', 'П'):
                for side in sides:
                    bound = dict(k=LABEL, n='Э1', bind=[(b, w, target, side)])
                    for page in (0, 1):
                        yield dict(pages=['А', 'Б'], elems=[dict(k=FIELD, n='Э2', page=page), dict(bound, page=page), dict(
                            k='Panel', n='П', page=page, pages=['А'], c=[])])
                        yield dict(pages=['А', 'Б'], elems=[dict(k=FIELD, n='Э0', page=1), dict(
                            k='Panel', n='include_Блок' if side % 2 else 'Панель', page=page, pages=['В', 'Г'], c=[
                                dict(k='Panel', n='П', pages=['А'], page=page, c=[]), dict(bound, page=page),
                                dict(k=FIELD, n='Э2', page=page)])])
        few = [(b, w, t, s) for b, w in ((1, 1), (3, 1), (3, 2), (4, 1)) for t in ('panel', 'Э1', 'Э2', 'Э3') for s in (0, 3)]
        for binds in itertools.product([None] + few, repeat=top):
            elems = [dict(k=LABEL, n=f'Э{i + 1}', page=1 - i % 2 if top > 2 else 0, bind=[b] if b else [])
                     for i, b in enumerate(binds)] + [dict(k=LABEL, n=f'Э{i}') for i in range(len(binds) + 1, 4)]
            yield dict(pages=['А', 'Б'], elems=elems)
            if top < 3:
                yield dict(pages=['А', 'Б'], elems=[dict(k='Panel', n='П', page=1, pages=['А', 'Б'], c=elems)])

    @staticmethod
    def all_lines(top):
        """guide lines beyond the four every page has"""
        for pages in range(1, 4):
            names = [f'С{i}' for i in range(pages)]
            for n in range(top + 1):
                for lines in itertools.product(range(pages), repeat=n):
                    panel = dict(k='Panel', n='П', pages=names, lines=lines, c=[
                        dict(k=LABEL, n=f'Э{i}', page=pages - 1 - i) for i in range(pages)])
                    for ver in (27, 26):
                        yield dict(ver=ver, pages=names, lines=lines, elems=[dict(k=FIELD, n='Э', page=pages - 1)])
                        yield dict(ver=ver, pages=['А', 'Б'], elems=[dict(panel, page=1), dict(k=FIELD, n='Э')])
                        yield dict(ver=ver, pages=names, lines=lines[::-1], elems=[
                            dict(k='Panel', n='include_Блок', pages=['А'], lines=(0,) * n, c=[panel])])

    @staticmethod
    def all_unknown():
        for ver in (27, 26):
            for n in range(4):
                for f in forests(n):
                    for elems in itertools.islice(paged(f, 1), 1):
                        for at in range(n + 1):
                            yield dict(ver=ver, attrs=ATTRS[2], pages=['А'], elems=elems, unknown=at)

    @staticmethod
    def all_shared(deep):
        menu = [dict(k=FIELD, link='Объект'), dict(k=FIELD, link='А'), dict(k=3, link='Список'), dict(k=LABEL),
                dict(k='Panel', pages=['Р'], c=[]), dict(k='Panel', pages=['Р', 'Т'], c=[
                    dict(k=FIELD, n='Внутри', link='Список', page=1), dict(k=LABEL, n='Ещё', bind=[(1, 1, 'Ещё', 0)])])]
        numbers = [dict(zip(('Объект', 'А', 'Список', 'Х'), p)) for p in ((1, 2, 3, 4), (3, 1, 2, 9), (7, 10, 1, 2))]
        for n in range(4 if deep else 3):
            for picks in itertools.product(range(len(menu)), repeat=n):
                for pages in itertools.product(range(2), repeat=n):
                    area = [dict(menu[i], n=f'О{j}', page=p) for j, (i, p) in enumerate(zip(picks, pages))]
                    if n > 1:
                        area[0]['bind'] = [(1, 1, 'О1', 0), (3, 1, 'panel', 3)]
                    for b in range(len(numbers)):
                        for before in (0, 1, 2):
                            for kind in ('include_', 'includr_'):
                                yield dict(area=area, a=numbers[0], b=numbers[b], before=before, kind=kind)
        for i, e in enumerate(menu[:3] + menu[5:]):
            yield dict(area=[dict(e, n='О0')], a=numbers[0], b={'Х': 1}, before=0, kind='include_', missing=True)

    @staticmethod
    def all_page_areas(deep):
        """two forms that share a whole page, each at a place of its own"""
        menu = [dict(k=FIELD, link='Объект'), dict(k=LABEL), dict(k='Panel', pages=['Р', 'Т'], c=[
            dict(k=FIELD, n='Внутри', link='Список', page=1), dict(k=LABEL, n='Ещё', bind=[(1, 1, 'Ещё', 0)])])]
        numbers = dict(Объект=1, Список=2)
        other = dict(Список=1, Объект=7)
        for n in range(4 if deep else 3):
            for picks in itertools.product(range(len(menu)), repeat=n):
                area = [dict(menu[i], n=f'О{j}') for j, i in enumerate(picks)]
                if n > 1:
                    area[0]['bind'] = [(1, 1, 'О1', 0), (3, 1, 'panel', 3)]
                for pages in ((1, 1), (2, 2), (1, 2), (2, 1), (2, 3), (3, 2)):
                    for a, b in itertools.product(range(pages[0]), range(pages[1])):
                        for kind in ('include_', 'includr_'):
                            for inner in (False, True):
                                yield dict(area=area, a=numbers, b=other, pages=(pages[0], a, pages[1], b), kind=kind,
                                           inner=inner)

    # -- running -------------------------------------------------------------------------------------------------
    @staticmethod
    def product(form, ver=27, name='А'):
        return dict(kind='epf', ver='803', n=name, objs=[dict(t='Form', n='Форма', uf=0, form=form)])

    def unknown(self, p, form, at):
        """the form with a control of an unknown kind added as the at-th of the form's controls"""
        body = form.body
        records = body[1][2][2]
        extra = json.loads(json.dumps(forms.records()['of'][0][1]))
        extra[0] = '11111111-2222-4333-8444-555555555555'
        extra[1] = '77'
        at = min(at, len(records) - 1)
        records.insert(1 + at, extra)
        records[0] = str(len(records) - 1)
        return form

    def run(self, case):
        if 'area' in case:
            return self.shared(case)
        desc = fix(case['form'])
        options = {'auto_include': True} if case['auto'] else {}
        form = forms.Ordinary(desc)
        if 'unknown' in desc:
            self.unknown(None, form, desc['unknown'])
        p = v8conf.Product(self.product(form))
        want = p
        if case['auto'] and 'unknown' not in desc:
            want = v8conf.Product(self.product(forms.Ordinary(desc, number=True)))
        self.d.start()
        src = self.d.extract(v8conf.pack(p.tree), options=options)
        self.count(executions=2, transitions=len(p.tree))
        if 'unknown' not in desc:
            self.listed(desc, case['auto'], src)
        diffs = want.compare(v8conf.unpack(self.d.build(options=options)))
        if diffs:
            self.fail('the form differs after extract and build: ' + '; '.join(diffs[:4]))

    def listed(self, desc, auto, src):
        found = [os.path.join(d, f) for d, _, ff in os.walk(self.d.at('w', 'src')) for f in ff if f.endswith('.elem.json')]
        own = [f for f in found if os.path.basename(f) == 'Form.elem.json']
        if len(own) != 1:
            self.fail(f'{len(own)} descriptions of elements of the form')
        doc = json.load(open(own[0], encoding='utf-8'))
        data = dict(doc['data'])
        for f in found:
            if f != own[0]:
                data.update(json.load(open(f, encoding='utf-8'))['data'])
        got = [x['name'] for x in doc['props'] or []]
        if got != [a[0] for a in desc.get('attrs', ())]:
            self.fail(f'attributes listed as {got}')
        names = {i: n for n, i in desc.get('attrs', ())}
        want_links, types = {}, {}

        def tree(elems, pages, path):
            out = []
            for i, e in enumerate(elems):
                page = pages[e.get('page', 0)]
                at = '/'.join([path] * bool(path) + [page, e['n']])
                kids = e['k'] == 'Panel' and tree(e.get('c', ()), e['pages'], at)
                link = e.get('link')
                if isinstance(link, list):
                    link = names.get(int(link[0][0]))
                want_links[at] = link
                types.setdefault(str(e['k']), set())
                out.append((page, e['n'], str(e['k']), kids))
            if auto:
                return [(p, [x[1:] for x in out if x[0] == p]) for p in pages]
            return out
        want = tree(desc['elems'], desc['pages'], '')

        def read(nodes, levels):
            out = []
            for x in nodes:
                if auto and levels:
                    if x['type'] != 'Page':
                        self.fail(f'a page listed as {x["type"]}')
                    out.append((x['name'], read(x['child'], False)))
                else:
                    kind = str('Panel' if x['type'] == 'Panel' else KINDS.get(x['type']))
                    kids = x['type'] == 'Panel' and read(x['child'], auto)
                    out.append((x['name'], kind, kids) if auto else (x['page'], x['name'], kind, kids))
            return out
        if not any(e['n'].startswith('include_') for e in desc['elems']):
            got = read(doc['tree'] or [], auto)
            if got != want:
                self.fail(f'controls listed as {got}, the form has {want}')
        want_links = {k[k.find('include_Блок'):] if 'include_Блок/' in k else k: v for k, v in want_links.items()}
        got = {k: v.get('prop') for k, v in data.items() if isinstance(v, dict) and 'id' in v}
        if got != want_links:
            self.fail(f'data sources listed as {got}, the form has {want_links}')

    def shared(self, case):
        def form(numbers, before, after, area, kind):
            attrs = sorted(numbers.items(), key=lambda x: x[1])
            own = [dict(k=LABEL, n=f'Свой{i}', page=i % 2) for i in range(before)]
            panel = dict(k='Panel', n=kind + 'core_Блок', page=before % 2, pages=['В', 'Г'], c=area,
                         bind=[(3, 1, 'panel', 3)])
            return dict(attrs=attrs, pages=['С0', 'С1'], elems=own + [panel] + [dict(k=LABEL, n='После')] * after)

        def paged(numbers, pages, at, kind):
            names = [f'С{i}' for i in range(pages)]
            names[at] = kind + 'core_Блок'
            elems = [dict(k=LABEL, n=f'Свой{i}', page=i) for i in range(pages) if i != at]
            elems += [dict(e, page=at) for e in area]
            attrs = sorted(numbers.items(), key=lambda x: x[1])
            if case['inner']:
                return dict(attrs=attrs, pages=['Х'], elems=[dict(k='Panel', n='П', pages=names, c=elems)])
            return dict(attrs=attrs, pages=names, elems=elems)
        area = fix(dict(elems=case['area']))['elems']
        options = {'auto_include': True}
        if 'pages' in case:
            n, i, m, j = case['pages']
            a, b = paged(case['a'], n, i, 'include_'), paged(case['b'], m, j, case['kind'])
        else:
            a = form(case['a'], 0, 1, area, 'include_')
            b = form(case['b'], case['before'], 0, [] if case.get('missing') else area, case['kind'])
        self.d.start()
        for src, f in (('Б', b), ('А', a)):
            self.d.extract(v8conf.pack(v8conf.Product(self.product(forms.Ordinary(f), name=src)).tree), src=src, options=options)
        self.count(executions=4)
        for src, f in (('А', a), ('Б', b)):
            try:
                out = v8conf.unpack(self.d.build(src, options=options))
            except Exception as err:
                if case.get('missing') and src == 'Б':
                    if 'Отсутствует свойство' not in str(err):
                        self.fail(f'the build fails for another reason: {str(err)[:300]}')
                    return
                raise
            if case.get('missing') and src == 'Б':
                self.fail('the form has no attribute the area is bound to, and was built without an error')
            want = v8conf.Product(self.product(forms.Ordinary(f, number=True), name=src))
            diffs = want.compare(out)
            if diffs:
                self.fail(f'product {src}: ' + '; '.join(diffs[:3]))


def fix(form):
    def walk(elems):
        return [dict(e, c=walk(e.get('c', ())), bind=[tuple(b) for b in e.get('bind', ())]) for e in elems]
    return dict(form, elems=walk(form['elems']), attrs=[tuple(a) for a in form.get('attrs', ())])


NAMES = {'381ed624-9217-4e63-85db-c4c3cb87daae': 'Field', '35af3d93-d7c7-4a2e-a8eb-bac87a1a3f26': 'CheckBox',
         '782e569a-79a7-4a4f-a936-b48d013936ec': 'RadioBtn', '64483e7f-3833-48e2-8c75-2c31aac49f6e': 'SelectField',
         'e69bf21d-97b2-4f37-86db-675aea9ec2cb': 'CommandPanel', '6ff79819-710e-4145-97cd-1618da79e3e2': 'Button',
         '151ef23e-6bb2-4681-83d0-35bc2217230c': 'Image', '90db814a-c75f-4b54-bc96-df62e554d67d': 'Group',
         'ea83fe3a-ac3c-4cce-8045-3dddf35b28b1': 'Table', '236a17b3-7f44-46d9-a907-75f9cdc61ab5': 'TableField',
         '0fc7e20d-f241-460c-bdf4-5ad88e5474a5': 'Label', '19f8b798-314e-4b4e-8121-905b2a7a03f5': 'ListField',
         '36e52348-5d60-4770-8e89-a16ed50a2006': 'Separator', 'd92a805c-98ae-4750-9158-d9ce7cec2f20': 'FieldHtml',
         'b1db1f86-abbb-4cf0-8852-fe6ae21650c2': 'Indicator', 'e3c063d8-ef92-41be-9c89-b70290b5368b': 'CalendarBox',
         '6c06cd5d-8481-4b6f-a90a-7a97a8bb8bef': 'TrackBar', '14c4a229-bfc3-42fe-9ce1-2da049fd0109': 'TextDocumentField',
         '42248403-7748-49da-b782-e4438fd7bff3': 'GraphicalSchemaField',
         'ad37194e-555e-4305-b718-5dca84baf145': 'GeographicalSchemaField', 'a8b97779-1a4b-4059-b09c-807f86d2a461': 'Chart',
         'e5fdc112-5c84-4a16-9728-72b85692b6e2': 'GanttChart', 'a26da99e-184a-4823-b0d6-62816d38dc4e': 'PivotChart',
         '984981b1-622d-4ebc-94f7-885f0cdfb59a': 'Dendrogram'}
KINDS = {NAMES[u]: i for i, u in enumerate(forms.controls())}
CHECK = P24()
