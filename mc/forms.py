"""Forms written from a description, out of genuine records of the platform (form_records.json.xz): managed forms with
elements, attributes, commands and parameters, and ordinary forms with pages, panels and bindings. Knows where the
platform keeps names, links and children; shares no code with the code under test."""
import copy
import functools
import json
import lzma
import os

FIELD, BUTTON, DECORATION, GROUP, TABLE, ADDITION = 'Field', 'Button', 'Decoration', 'Group', 'Table', 'ItemAddition'
UUID = {FIELD: '77ffcc29-7f2d-4223-b22f-19666e7250ba', BUTTON: 'a9f3b1ac-f51b-431e-b102-55a69acdecad',
        DECORATION: '3d3cb80c-508b-41fa-8a18-680cdf5f1712', GROUP: 'cd5394d0-7dda-4b56-8927-93ccbe967a01',
        TABLE: '143c00f7-a42d-4cd7-9189-88e4467dc768', ADDITION: 'c5259a1d-518a-4afd-b98d-0176027e4feb'}
KIND = {v: k for k, v in UUID.items()}
FORM_COMMANDS = '409b9a53-7f7e-4178-86c1-33176c7c7a7a'
ELEMENTS_OF_FORM = '02023637-7868-4a5f-8576-835a76e0c9ba'

# where things are in a record: steps (go this far; then, unless the second is 0, skip so many times the count there)
_HEAD = [(3, 1), (1, 1)]
NAME = {FIELD: _HEAD + [(2, 0)], GROUP: _HEAD + [(2, 0)], DECORATION: _HEAD + [(2, 0)], ADDITION: _HEAD + [(2, 0)],
        BUTTON: [(3, 1), (2, 0)], TABLE: [(4, 1), (1, 0)]}
PROP = {FIELD: _HEAD + [(7, 0)], TABLE: [(4, 1), (7, 0)]}
CMD = {BUTTON: [(3, 1), (5, 0)]}
KIDS = {GROUP: _HEAD + [(17, 0)], TABLE: [(4, 1), (50, 2), (7, 0)]}


def at(steps, raw):
    i = 0
    for d, n in steps:
        i += d
        if n:
            i += int(raw[i]) * n
    return i


def root_elements(root):
    i = at([(18, 2), (3, 0)], root)
    return i + int(root[i]) + 1


@functools.lru_cache(None)
def records():
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'form_records.json.xz')
    bag = json.loads(lzma.open(path, 'rt', encoding='utf-8').read())
    return {n: [(json.loads(k), v) for k, v in sorted(b.items())] for n, b in bag.items()}


def counters(kind):
    """the lists whose lengths shift everything behind them in a record: (path to the counter, entries per count)"""
    out = []
    for table in (NAME, PROP, CMD, KIDS):
        steps = table.get(kind, [])
        for j, (d, n) in enumerate(steps):
            if n and (steps[:j] + [(d, 0)], n) not in out:
                out.append((steps[:j] + [(d, 0)], n))
    return out


def stretch(kind, raw, which):
    """one more entry in one of these lists"""
    path, n = counters(kind)[which]
    i = at(path, raw)
    raw[i:i + 1] = [str(int(raw[i]) + 1)] + ['0'] * n


def shapes(kind):
    """number of genuine record shapes of an element kind"""
    return [k for k, _ in records()['uf'] if k[0] == kind]


def q(s):
    return '"' + s.replace('"', '""') + '"'


class Managed:
    """desc: root - number of a genuine form of the platform's (without its elements); attrs - [(name, id, [(column, id)],
    shape)], cmds - [(name, id)], params - [name], elems - elements: dict(k=kind, v=shape, n=name, c=children,
    link=path by names | raw link, cmd=name of a form command | raw link).
    body - the member; attrs/cmds/params/tree/links - what has to be listed in the extracted description"""

    def __init__(self, desc, parent=None):
        self.ids = {}
        self.next = 0
        roots = records()['root']
        self.body = copy.deepcopy(roots[desc.get('root', 0) % len(roots)][1])
        self.attrs = [self.attribute(*a, parent=parent) for a in desc.get('attrs', ())]
        self.cmds = [self.command(*c) for c in desc.get('cmds', ())]
        self.params = [self.parameter(n) for n in desc.get('params', ())]
        for i, items in ((3, self.attrs), (4, self.params), (5, self.cmds)):
            self.body[i][1:2] = [str(len(items))] + items
        self.attr_ids = {(a[0],): (str(a[1]),) for a in desc.get('attrs', ())}
        for a in desc.get('attrs', ()):
            for c, i in (a[2] if len(a) > 2 else ()):
                self.attr_ids[a[0], c] = (str(a[1]), str(i))
        self.cmd_ids = {c[0]: str(c[1]) for c in desc.get('cmds', ())}
        self.links = {}
        root = self.body[1]
        i = root_elements(root)
        self.tree, pairs = self.elements(desc.get('elems', ()), '')
        root[i:i + 1] = [str(len(self.tree))] + pairs
        self.raw = [self.body]

    def elements(self, elems, path):
        tree, pairs = [], []
        for e in elems:
            kind = e['k']
            match = [r for k, r in records()['uf'] if k[0] == kind]
            raw = copy.deepcopy(match[e.get('v', 0) % len(match)])
            for which in e.get('x', ()):
                stretch(kind, raw, which)
            self.next += 1
            raw[1] = [str(e.get('id', self.next)), ELEMENTS_OF_FORM]
            raw[at(NAME[kind], raw)] = q(e['n'])
            key = f'{path}/{e["n"]}' if path else e['n']
            shown = {}
            if kind in PROP:
                link = e.get('link')
                if isinstance(link, tuple):         # names
                    shown['ПутьКДанным'] = '.'.join(link)
                    link = [[i] for i in self.attr_ids[link]]
                link = copy.deepcopy(link) or []
                raw[at(PROP[kind], raw)] = [str(len(link))] + link
            if kind in CMD:
                cmd = e.get('cmd')
                if isinstance(cmd, str):
                    shown['ИмяКоманды'] = cmd
                    cmd = [self.cmd_ids[cmd], FORM_COMMANDS]
                raw[at(CMD[kind], raw)] = list(cmd or ['0'])
            self.links[key] = shown
            node = dict(name=e['n'], type=kind)
            if kind in KIDS:
                below = key if kind == TABLE else key.replace('includr_', 'include_')
                node['child'], kids = self.elements(e.get('c', ()), below)
                i = at(KIDS[kind], raw)
                raw[i:i + 1] = [str(len(node['child']))] + kids
                node['child'] = node['child'] or None
            tree.append(node)
            pairs += [UUID[kind], raw]
        return tree, pairs

    @staticmethod
    def attribute(name, id, columns=(), shape=0, parent=None):
        own = [(k, r) for k, r in records()['attr'] if k[0] != 'child']
        own.sort(key=lambda x: len(json.dumps(x[1])))
        raw = copy.deepcopy(own[0 if isinstance(shape, str) else shape % len(own)][1])
        raw[1] = [str(id)]
        raw[3] = q(name)
        if shape in ('parent', 'parents'):
            raw[5] = ['"Pattern"', ['"#"', parent or '0e5a7a1e-5b7e-4c6e-9f0e-2f3c5a8f1b1d']]
        if shape == 'parents':      # one type of several
            raw[5] += [['"S"', '10', '1'], ['"#"', '0e5a7a1e-5b7e-4c6e-9f0e-2f3c5a8f1b1e']]
        child = next(r for k, r in records()['attr'] if k[0] == 'child')
        kids = []
        for n, i in columns:
            c = copy.deepcopy(child)
            c[1], c[3] = str(i), q(n)
            kids.append(c)
        raw[13:14] = [str(len(kids))] + kids
        return raw

    @staticmethod
    def command(name, id):
        raw = copy.deepcopy(records()['cmd'][0][1])
        raw[1] = [str(id), FORM_COMMANDS]
        raw[2] = q(name)
        return raw

    @staticmethod
    def parameter(name):
        raw = copy.deepcopy(records()['param'][0][1])
        raw[1] = q(name)
        return raw


PANEL = '09ccdc77-ea1a-4a6d-ab1c-3435eada2433'
PAGES = [(2, 1), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (4, 0)]


def controls():
    """the kinds of controls of ordinary forms"""
    return [k[0] for k, _ in records()['of']]


class Ordinary:
    """An ordinary form. desc: ver 27 or 26, attrs - [(name, id)], pages - names of pages of the form's own panel, elems -
    controls: dict(k=number of the kind | 'Panel', n=name, page=number, id=, pages=[names], c=[controls],
    lines=[pages of guide lines beyond the four of each page],
    link=name of an attribute | raw path, bind=[(border, which, target, side)] with the name of a control beside it, of
    its own, 'panel' as the target).
    number=True: numbers elements the way a build with --auto_include does: grouped by page, from 2.
    body - the member; listed - what the extracted description has to list"""

    def __init__(self, desc, number=False, ver=27):
        ver = desc.get('ver', ver)
        self.number = number
        self.next = 1
        body = copy.deepcopy(records()['ofform'][0][1])
        self.sources = []
        self.attr_ids = {n: str(i) for n, i in desc.get('attrs', ())}
        attrs = []
        for n, i in desc.get('attrs', ()):
            raw = copy.deepcopy(records()['ofattr'][int(i) % 2][1])
            raw[0], raw[4] = [str(i)], q(n)
            if ver == 26:
                del raw[1]
            attrs.append(raw)
        panel = body[1][2]
        elems = self.ordered(desc.get('elems', ()), len(desc.get('pages', ('Страница1',))))
        self.panel(panel[1][1], desc.get('pages', ('Страница1',)), elems, desc.get('lines', ()))
        panel[2] = [str(len(elems))] + [self.control(e, elems) for e in elems]
        body[0] = str(ver)
        body[2][2] = [str(len(attrs))] + attrs
        body[2][3] = [str(len(self.sources))] + self.sources
        self.body, self.raw = body, [body]

    def ordered(self, elems, pages):
        """the controls of a panel with the numbers they get"""
        elems = [dict(e) for e in elems]
        if self.number:
            elems.sort(key=lambda e: e.get('page', 0))
        for e in elems:
            self.next += 1
            if self.number or 'id' not in e:
                e['id'] = self.next
            if e['k'] == 'Panel':
                e['c'] = self.ordered(e.get('c', ()), len(e.get('pages', ())))
        return elems

    def panel(self, info, pages, elems, lines=()):
        i = at(PAGES, info)
        page = records()['page'][0][1]
        made = []
        for n in pages:
            p = copy.deepcopy(page)
            p[1][2][1] = p[6] = q(n)
            made.append(p)
        old = int(info[i + 4])
        rects = []
        for n in range(len(pages)):
            rects += [['2', str(8 + j), '1', '1', str(j + 1), str(n), '0', '0', '0'] for j in range(4)]
        for j, n in enumerate(lines):
            rects.append(['2', str(20 + j), '0', '0', str(j + 1), str(n), '5', '0', '0'])
        info[i + 5:i + 5 + old] = rects
        info[i + 4] = str(len(rects))
        info[i] = ['1', str(len(pages))] + made
        sides = [[], [], [], []]
        for e in elems:
            for border, _, target, side in sorted(e.get('bind', ())):
                if target == 'panel':
                    sides[1 if side > 3 else side].append(['0', str(e['id']), str(1 if border > 3 else border)])
        i = 2
        for _ in range(4):
            count = int(info[i])
            info[i + 1:i + 1 + count] = []
            i += 1
        info[2:6] = [x for s in sides for x in [str(len(s))] + s]

    def control(self, e, beside):
        if e['k'] == 'Panel':
            raw = copy.deepcopy(records()['panel'][0][1])
            self.link(e)
            kids = e['c']
            self.panel(raw[2][1], e.get('pages', ('Страница1',)), kids, e.get('lines', ()))
            raw[-1] = [str(len(kids))] + [self.control(k, kids) for k in kids]
        else:
            raw = copy.deepcopy(records()['of'][e['k'] % len(records()['of'])][1])
            self.link(e)
        raw[1] = str(e['id'])
        raw[-2][1] = q(e['n'])
        place = raw[-3]
        i = 12
        ids = {x['n']: str(x['id']) for x in beside}
        for n in range(6):
            place[6 + n] = ['0', ['2', '-1', '6', '0'], ['2', '-1', '6', '0']]
        for border, which, target, side in e.get('bind', ()):
            place[6 + border][which] = ['2', '0' if target == 'panel' else ids[target], str(side), str(7 + border)]
        for _ in range(4):
            count = int(place[i])
            place[i + 1:i + 1 + count] = []
            i += 1
        sides = [[], [], [], []]
        for x in beside:
            for border, _, target, side in sorted(x.get('bind', ())):
                if target == e['n']:
                    sides[1 if side > 3 else side].append(['0', str(x['id']), str(1 if border > 3 else border)])
        place[12:16] = [x for s in sides for x in [str(len(s))] + s]
        place[-5] = str(e.get('page', 0))
        return raw

    def link(self, e):
        link = e.get('link')
        if link is None:
            return
        if isinstance(link, str):
            link = [[self.attr_ids[link]]]
        self.sources.append([str(e['id']), [str(len(link))] + copy.deepcopy(link)])
