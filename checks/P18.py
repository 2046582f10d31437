"""With auto_include the product consists of the folders found in the sources: every kind at every level x every subset
of its objects removed x objects brought from another product x identifiers replaced."""
import copy
import itertools
import json
import os
import shutil

from mc import drive, v8conf
from mc.core import Check
from mc.v8conf import TOP, TYPES, nested_types, uid
from checks.P15 import full, in_order, subsets

AUTO = {'auto_include': True}


def at(desc, path):
    """list that holds the object of the path, and its index (None when it is not there)"""
    holder, field = desc, 'objs'
    for depth, (t, n) in enumerate(path):
        items = holder.setdefault(field, [])
        i = next((i for i, o in enumerate(items) if o['t'] == t and o['n'] == n), None)
        if depth == len(path) - 1:
            return items, i
        holder, field = items[i], 'c'


def parents(desc, path):
    """the smallest product that has only the parents of the path"""
    out = dict(kind=desc['kind'], objs=[])
    holder, field, source, sfield = out, 'objs', desc, 'objs'
    for t, n in path[:-1]:
        source = next(o for o in source[sfield] if o['t'] == t and o['n'] == n)
        sfield = 'c'
        o = dict(t=t, n=n, m=[], order=source.get('order', []))
        holder[field] = [o]
        holder, field = o, 'c'
    return out


class P18(Check):
    id = 'P18'
    chunk = 8
    rule = 'every kind at every level x number of objects x subset removed x objects brought from another product ' \
           'before/between/after x new identifiers; all nested kinds of an object at once'
    bound = {'quick': '<=2 objects of a kind, <=2 brought', 'thorough': '<=3 objects, <=2 brought, subsets of all kinds'}

    def setup(self):
        self.d = drive.Driver()

    def spaces(self, tier):
        deep = tier == 'thorough'
        return [('top', self.top(deep)), ('nested', self.nested(deep)), ('many', self.many(deep)),
                ('ids', self.ids(deep)), ('products', self.products(deep))]

    NAMES = ['Б', 'Д', 'Ж']
    NEW = ['А', 'В', 'Е', 'Я']

    def edits(self, t, n, path, deep):
        """(removed, brought) in every combination"""
        have = self.NAMES[:n]
        for gone in subsets(have):
            for new in itertools.chain(subsets(self.NEW[:2 if not deep else 4]), [['Я'], ['А', 'Я']] if not deep else ()):
                if len(new) <= 2:
                    yield [path + [[t, x]] for x in gone], [(path, dict(t=t, n=x, k=f'донор{x}', **full(t))) for x in new]
            if gone:
                # an object of the same name takes the place of the removed one
                yield [path + [[t, x]] for x in gone], [(path, dict(t=t, n=gone[0], k='донор', **full(t)))]

    def case(self, d, gone, new, ids=()):
        return dict(d=d, gone=gone, new=[[p, o] for p, o in new], ids=list(ids))

    def top(self, deep):
        for t in TOP:
            for n in range(4 if deep else 3):
                for kind in ('cf', 'cfe') if deep else ('cf',):
                    objs = [dict(t=t, n=x, **full(t)) for x in reversed(self.NAMES[:n])]
                    d = dict(kind=kind, objs=objs, order=[t], zg=[TYPES[t]['group']])
                    for gone, new in self.edits(t, n, [], deep):
                        yield self.case(d, gone, new)

    def holders(self):
        for t in TYPES:
            for k in nested_types(t):
                yield t, k

    def chain(self, t):
        """path from the root to an object of the kind t: list of (kind, order)"""
        if TYPES[t].get('top', True):
            return [t]
        p = next(p for p in TYPES if t in nested_types(p) and p != t)
        return self.chain(p) + [t]

    def nested(self, deep):
        for t, k in self.holders():
            for n in range(4 if deep else 3):
                kids = [dict(t=k, n=x, **full(k)) for x in reversed(self.NAMES[:n])]
                chain = self.chain(t)
                o = dict(t=t, n='Хозяин', c=kids, order=nested_types(t), **full(t))
                path = [[t, 'Хозяин']]
                for p in reversed(chain[:-1]):
                    o = dict(t=p, n='Хозяин', c=[o], order=nested_types(p), **full(p))
                    path.insert(0, [p, 'Хозяин'])
                for gone, new in self.edits(k, n, path, deep):
                    yield self.case(dict(kind='cf', objs=[o], order=[chain[0]]), gone, new)

    def many(self, deep):
        """several kinds at once: the kinds of an object, the kinds of the product"""
        for t in TOP:
            kinds = nested_types(t)
            if len(kinds) < 2:
                continue
            for gone in subsets(kinds):
                for new in subsets(kinds):
                    kids = [dict(t=k, n='Б', **full(k)) for k in kinds]
                    path = [[t, 'Хозяин']]
                    yield self.case(dict(kind='cf', order=[t], objs=[dict(t=t, n='Хозяин', c=kids, order=kinds, **full(t))]),
                                    [path + [[k, 'Б']] for k in gone],
                                    [(path, dict(t=k, n='А', k='донор' + k, **full(k))) for k in new])
        some = ['Catalog', 'Document', 'CommonModule', 'Role'] + (['Enum', 'Subsystem'] if deep else [])
        for have in subsets(some):
            for gone in subsets(have):
                for new in subsets(some):
                    yield self.case(dict(kind='cf', order=some, zg=['General', 'Main'],
                                         objs=[dict(t=t, n='Б', **full(t)) for t in have]),
                                    [[[t, 'Б']] for t in gone],
                                    [([], dict(t=t, n='А', k='донор' + t, **full(t))) for t in new])

    def ids(self, deep):
        """new identifiers for an object, its nested objects, or both"""
        for t in TOP:
            for which in range(1, 4):
                # the identifier of a command is repeated inside its body: not replaced here
                kinds = [k for k in nested_types(t) if TYPES[k]['kind'] != 'command']
                if which > 1 and not kinds:
                    continue
                d = dict(kind='cf', order=[t], objs=[dict(t=t, n=x, order=nested_types(t), c=[
                    dict(t=k, n=y, **full(k)) for k in nested_types(t) for y in 'АБ'], **full(t)) for x in ('А', 'Б')])
                ids = []
                if which & 1:
                    ids.append([[t, 'Б']])
                if which & 2:
                    ids += [[[t, 'А'], [k, 'Б']] for k in kinds] + [[[t, 'Б'], [k, 'А']] for k in kinds]
                yield self.case(d, [], [], ids)
                if which & 1:
                    yield self.case(d, [[[t, 'А']]], [([], dict(t=t, n='Я', k='донор', **full(t)))], ids[:1])

    def products(self, deep):
        for kind, inner in (('epf', ['Form', 'Template']), ('erf', ['Form', 'Template']), ('cfe', ['Catalog', 'Role'])):
            for n in range(3):
                for t in inner:
                    objs = [dict(t=t, n=x, **full(t)) for x in self.NAMES[:n]]
                    for gone, new in self.edits(t, n, [], deep):
                        yield self.case(dict(kind=kind, objs=objs, order=inner, zg=['Main']), gone, new)

    @staticmethod
    def folder(src, path):
        return os.path.join(src, *[x for step in path for x in step])

    def run(self, case):
        base = case['d']
        self.d.start()
        src = self.d.extract(v8conf.pack(v8conf.Product(base).tree), options=AUTO)
        want = copy.deepcopy(base)
        for path in case['gone']:
            items, i = at(want, path)
            del items[i]
            shutil.rmtree(self.folder(src, path))
        if case['new']:
            donor = parents(base, case['new'][0][0] + [['', '']])
            for path, o in case['new']:
                items = at(donor, path + [[o['t'], o['n']]])[0]
                items.append(o)
                at(want, path + [[o['t'], o['n']]])[0].append(o)
            donor.update({k: base[k] for k in ('order', 'zg') if k in base})
            src2 = self.d.extract(v8conf.pack(v8conf.Product(donor).tree), src='src2', options=AUTO)
            for path, o in case['new']:
                target = self.folder(src, path + [[o['t'], o['n']]])
                shutil.copytree(self.folder(src2, path + [[o['t'], o['n']]]), target)
        for path in case['ids']:
            items, i = at(want, path)
            items[i]['u'] = uid('новый ' + json.dumps(path))
            name = os.path.join(self.folder(src, path), f'{path[-1][0]}.id.json')
            with open(name, encoding='utf-8') as f:
                data = json.load(f)
            data['uuid'] = items[i]['u']
            with open(name, 'w', encoding='utf-8') as f:
                json.dump(data, f)
        # folders of kinds that have no objects left do not survive in a repository
        for path in case['gone']:
            parent = os.path.dirname(self.folder(src, path))
            if os.path.isdir(parent) and not os.listdir(parent):
                os.rmdir(parent)
        out = v8conf.unpack(self.d.build(options=AUTO))
        self.count(executions=2 + bool(case['new']), transitions=len(out))
        diffs = v8conf.Product(in_order(want)).compare(out)
        if diffs:
            self.fail(f'removed {case["gone"]}, brought {[[p, o["t"], o["n"]] for p, o in case["new"]]}, new identifiers '
                      f'{case["ids"]}: ' + '; '.join(diffs[:3]))


CHECK = P18()
