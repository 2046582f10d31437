"""Every kind of object at every level x names around the prefix x borrowed x prefix given on extraction, on build, on
both: only names of own top-level objects lose it and get it, everything else is untouched."""
import copy
import itertools
import os

from mc import drive, v8conf
from mc.core import Check
from mc.v8conf import TOP, TYPES, nested_types
from checks.P15 import full, in_order


def strip(name, prefix):
    return name[len(prefix):] if prefix and name.startswith(prefix) else name


def key(o, tag):
    """own identity of every object, whatever its name is"""
    o['k'] = tag
    for i, c in enumerate(o.get('c', [])):
        key(c, f'{tag}/{c["t"]}{i}')
    return o


def renamed(desc, pe, pb):
    """what the product must be after extraction with the prefix pe and build with the prefix pb"""
    out = copy.deepcopy(desc)
    for o in out['objs']:
        if not o.get('borrowed'):
            o['n'] = (pb or '') + strip(o['n'], pe)
    if out['kind'] == 'cfe' and pb is not None:
        out['pref'] = pb
    return out


class P17(Check):
    id = 'P17'
    chunk = 8
    rule = 'kinds of objects x (own, borrowed, short header) x names with/without the prefix at every level x prefix on ' \
           'extraction / build / both / different x plain and automatic tables of contents'
    bound = {'quick': '2 objects per kind, 3 levels', 'thorough': 'all pairs of names'}

    NAMES = ['П_Имя', 'Имя', 'П_П_Имя', 'Имя_П_', 'П', 'п_Имя', 'П_1']
    PREFIXES = [(None, None), ('П_', 'П_'), ('П_', None), (None, 'П_'), ('П_', 'Р_'), ('', ''), ('П_П_', 'П_'),
                ('Нет_', 'Нет_'), ('П_', '')]

    def setup(self):
        self.d = drive.Driver()

    def spaces(self, tier):
        deep = tier == 'thorough'
        return [('kinds', self.kinds(deep)), ('nested', self.nested(deep)), ('products', self.products(deep))]

    def kinds(self, deep):
        for t in TOP:
            for borrowed, short in ((0, 0), (1, 0), (0, 1)):
                for n1, n2 in (itertools.permutations(self.NAMES, 2) if deep else zip(self.NAMES,
                                                                                      self.NAMES[3:] + self.NAMES)):
                    for p in self.PREFIXES:
                        for kind in ('cf', 'cfe'):
                            if kind == 'cfe' and not deep and p not in self.PREFIXES[1:4]:
                                continue
                            if {strip(n1, p[0]), strip(n2, p[0])} & {''} or strip(n1, p[0]) == strip(n2, p[0]):
                                continue
                            yield dict(p=p, auto=int(n1 < n2), d=dict(kind=kind, objs=[
                                dict(t=t, n=n1, borrowed=borrowed, short=short, **full(t)),
                                dict(t=t, n=n2, **full(t))]))

    def nested(self, deep):
        for t in TOP:
            for top in ('П_Имя', 'Имя'):
                for inner in ('П_Вл', 'Вл', 'П_Имя') + (('П_П_Вл', 'П_') if deep else ()):
                    for p in self.PREFIXES:
                        for auto in (0, 1):
                            kids = []
                            for k in nested_types(t):
                                sub = [dict(t=x, n=inner, **full(x)) for x in nested_types(k)]
                                kids += [dict(t=k, n=inner, c=sub, borrowed=b, **full(k)) for b in (0,)]
                                kids += [dict(t=k, n=inner + '2', borrowed=1, **full(k))]
                            if kids:
                                yield dict(p=p, auto=auto, d=dict(kind='cf', objs=[dict(t=t, n=top, c=kids, **full(t))]))

    def products(self, deep):
        for kind in ('cf', 'cfe', 'epf', 'erf'):
            for n in self.NAMES:
                for p in self.PREFIXES:
                    for auto in (0, 1):
                        for inner in self.NAMES if deep else ('П_Вл', 'Вл'):
                            if not strip(inner, p[0]):
                                continue
                            objs = [dict(t='Catalog', n=inner, m=['obj'])] if kind[0] == 'c' else \
                                [dict(t='Form', n=inner), dict(t='Template', n=inner)]
                            yield dict(p=p, auto=auto, d=dict(kind=kind, n=n, objs=objs))

    def run(self, case):
        pe, pb = case['p']
        desc = copy.deepcopy(case['d'])
        for i, o in enumerate(desc['objs']):
            key(o, f'объект{i}')
        opt = {'auto_include': True} if case['auto'] else {}
        self.d.start()
        src = self.d.extract(v8conf.pack(v8conf.Product(desc).tree), options=dict(opt, **({'prefix': pe} if pe is not None else {})))
        for o in desc['objs']:
            name = o['n'] if o.get('borrowed') else strip(o['n'], pe)
            if not os.path.isfile(os.path.join(src, o['t'], name, f'{o["t"]}.id.json')):
                self.fail(f'{o["t"]} {o["n"]} extracted with the prefix {pe!r} is not in the folder {name}')
        out = v8conf.unpack(self.d.build(options=dict(opt, **({'prefix': pb} if pb is not None else {}))))
        want = renamed(desc, pe, pb)
        if case['auto']:
            # objects come in the order of their names in the sources
            for o, w in zip(desc['objs'], want['objs']):
                w['sort'] = o['n'] if o.get('borrowed') else strip(o['n'], pe)
            kinds = in_order(dict(want, objs=[dict(o, n=o['sort'], real=o['n']) for o in want['objs']]))
            want = dict(kinds, objs=[dict(o, n=o['real']) for o in kinds['objs']])
        self.count(executions=2, transitions=len(out))
        diffs = v8conf.Product(want).compare(out)
        if diffs:
            self.fail(f'extracted with the prefix {pe!r}, built with {pb!r}: ' + '; '.join(diffs[:3]))


CHECK = P17()
