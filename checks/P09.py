"""Every redirection of the files of a two-level tree by an index (explicit, renamed, null, empty, '*', absent, in
every position), extracted and built back: the files are where the index says and the build takes them from there
(and only from there), whatever local copies lie around and in whatever order workers finish."""
import itertools
import json
import os
import posixpath

from mc import env, fs
from mc.core import Check

TOP = 'Form/Ф'
SUB = 'Form/Ф/Вложенная'
OTHER = 'Form/Ф2'     # has files of the same names, not mentioned by the index
FILES = {'m.obj.bsl': 'Процедура А()\nКонецПроцедуры\n', 'm.elem.json': None, 'm.json': '{"а": 1}'}
SUBFILE = ('k.bin', 'данные')


def content(name, tag):
    if name.endswith('.elem.json'):
        return json.dumps({'tree': [], 'data': {'метка': tag}}, ensure_ascii=False)
    if name.endswith('.bsl'):
        return f'// {tag}\nА = 1;\n'
    return f'[{tag}]'


def same(a, b, name):
    if name.endswith('.elem.json'):
        return json.loads(a) == json.loads(b)
    return a == b


def flatten(index, path=''):
    """[(dir, {name: target})] of the index: independent reading of the documentation"""
    here, out = {}, []
    for key, val in index.items():
        if isinstance(val, dict):
            out += flatten(val, posixpath.join(path, key))
        else:
            here[key] = val
    return [(path, here)] + out


def expect_extract(files, index):
    """{path relative to the repository root: content}; None if two files claim one place"""
    rules = dict(flatten(index))
    out = {}
    for path, data in files.items():
        d, name = posixpath.split(path)
        rule = rules.get(d, {})
        if name in rule:
            target = rule[name] or posixpath.join('src', path)
        elif rule.get('*'):
            target = posixpath.join(rule['*'], name)
        else:
            target = posixpath.join('src', path)
        target = posixpath.normpath(target)
        if target in out:
            return None
        out[target] = data
    return out


def expect_build(tree, index):
    """tree: {path relative to the root: content} -> {path in the build: content}"""
    out = {}
    for path, data in tree.items():
        if path.startswith('src/'):
            out[path[4:]] = data
    for d, rule in flatten(index):
        star = rule.get('*')
        if star:
            for path, data in tree.items():
                td, name = posixpath.split(path)
                if td == posixpath.normpath(star) and name not in rule:
                    out[posixpath.join(d, name)] = data
        for name, target in rule.items():
            if name != '*' and target and posixpath.normpath(target) in tree:
                out[posixpath.join(d, name)] = tree[posixpath.normpath(target)]
    return out


def make_index(opts, star, star_pos, sub):
    """opts: {name: option}; '-' means not listed"""
    d = {}
    if star and star_pos == 'first':
        d['*'] = star
    for i, (name, o) in enumerate(opts.items()):
        if star and star_pos == 'mid' and i == 1:
            d['*'] = star
        if o != '-':
            d[name] = o
    if sub is not None:
        d[posixpath.basename(SUB)] = sub
    if star and star_pos == 'last':
        d['*'] = star
    return {'Form': {'Ф': d}} if d else {}


class P09(Check):
    id = 'P09'
    chunk = 16
    rule = 'per file of a folder: not listed / null / empty / moved / moved+renamed / up a level, x "*" absent or in ' \
           'each position, x the same for a nested folder; existing local copies x worker completion orders; ' \
           'merging of sub-indexes'
    bound = {'quick': '3+1 files, 2 folders, all option combinations', 'thorough': 'the same plus all 24 orders'}

    def setup(self):
        from v8unpack.organizer_file import OrganizerFile
        from v8unpack import helper
        self.org = OrganizerFile
        self.helper = helper

    def options(self, name):
        return ['-', None, '', 'base/' + name, 'lib/глуб/x_' + name]

    def spaces(self, tier):
        names = list(FILES)

        def redirect():
            for combo in itertools.product(*[self.options(n) for n in names]):
                for star, pos in ((None, 'none'), ('base', 'first'), ('base', 'mid'), ('base/all', 'last')):
                    for sub in (None, {}, {'*': 'base/all'}, {SUBFILE[0]: 'base/k.bin'},
                                {SUBFILE[0]: None, '*': 'base/sub'}, {SUBFILE[0]: 'lib/к', '*': 'base'}):
                        yield dict(opts=dict(zip(names, combo)), star=star, pos=pos, sub=sub)

        def override():
            # local copies and other content of the redirect folders lying around
            for combo in itertools.product(*[['-', None, 'base/' + n] for n in names]):
                for star, pos in ((None, 'none'), ('base/all', 'first'), ('base/all', 'last')):
                    for extra in range(8):
                        for order in (0, 1) if tier == 'quick' else range(24):
                            yield dict(opts=dict(zip(names, combo)), star=star, pos=pos, extra=extra, order=order)

        def merge():
            vals = ['-', None, 'a/m.json', 'b/m.json']
            for v in [*itertools.product(vals, repeat=3), *itertools.product(['nofolder'], vals, vals)]:
                for w in itertools.product(['-', 'a', 'b'], repeat=2):
                    yield dict(v=list(v), w=list(w))

        def gone():
            # the index names a file that does not exist, a local copy may or may not
            for n in FILES:
                for local in (0, 1):
                    for star in (None, 'base/all'):
                        yield dict(gone=n, local=local, star=star)

        def bad():
            for what in ('missing', 'notjson', 'list', 'submissing', 'subnotjson', 'mismatch', 'deepvalue'):
                yield dict(bad=what)
        return [('redirect', redirect()), ('override', override()), ('merge', merge()), ('bad', bad()), ('gone', gone())]

    def base(self):
        base = fs.fresh(os.path.join(env.scratch_dir(), 'p09'))
        os.chdir(base)
        return base

    def texts(self, root):
        return {k: v.decode('utf-8') for k, v in fs.files_only(fs.tree(root)).items()}

    def compare(self, want, got, what):
        for k in sorted(set(want) | set(got)):
            if k not in got:
                self.fail(f'{what}: {k} is missing')
            if k not in want:
                self.fail(f'{what}: unexpected {k}')
            if not same(want[k], got[k], k):
                self.fail(f'{what}: {k} has the content {got[k][:60]!r} instead of {want[k][:60]!r}')

    def run(self, case):
        if 'v' in case:
            return self.merge(case)
        if 'bad' in case:
            return self.bad(case)
        if 'gone' in case:
            return self.gone(case)
        index = make_index(case['opts'], case['star'], case['pos'], case.get('sub'))
        files = {posixpath.join(TOP, n): content(n, n) for n in FILES}
        files.update({posixpath.join(OTHER, n): content(n, 'другая ' + n) for n in FILES})
        files[posixpath.join(SUB, SUBFILE[0])] = content(*SUBFILE)
        base = self.base()
        root = base + '/root'
        os.makedirs(root)
        os.chdir(root)
        if 'extra' not in case:
            want = expect_extract(files, index)
            if want is None:
                return 'conflict'
            fs.put(base + '/stage', files)
            self.org.unpack(base + '/stage', root + '/src', index=index or None)
            got = self.texts(root)
            self.compare(want, got, 'extracted')
            built = expect_build(want, index)
            self.org.pack(root + '/src', base + '/out', index=index or None)
            self.compare(built, self.texts(base + '/out'), 'built')
            self.count(executions=2, states=len(got), transitions=2)
            return sorted(want)
        # a tree edited by hand
        tree = {'src/' + k: v if k.startswith(OTHER) else content(posixpath.basename(k), 'local')
                for k, v in files.items()}
        for i, n in enumerate(FILES):
            target = case['opts'][n]
            if target and target != '-':
                tree[target] = content(n, 'shared')
                if not case['extra'] >> i & 1:
                    del tree['src/' + posixpath.join(TOP, n)]
            elif case['extra'] >> i & 1:
                tree['base/all/' + n] = content(n, 'all')
        if case['star']:
            tree['base/all/чужой.bsl'] = content('чужой.bsl', 'all')
            tree['base/all/sub/x.bin'] = 'не берётся'
        fs.put(root, tree)
        built = expect_build(tree, index)
        if case['order']:
            perms = list(itertools.permutations(range(4)))

            def order(n):
                if self.tier == 'quick':
                    return list(range(n))[::-1]
                p = [i for i in perms[case['order']] if i < n]
                return p + list(range(len(p), n))
            env.ENV.order = order
        self.org.pack(root + '/src', base + '/out', index=index or None)
        self.compare(built, self.texts(base + '/out'), 'built')
        self.count(executions=1, states=len(built), transitions=1)
        return sorted(built.items())

    def merge(self, case):
        """sub-indexes are merged in order, the main index wins, an explicit null cancels a redirection"""
        base = self.base()
        subs, final = [], {}
        for i, v in enumerate(case['v']):
            d = {'Form': {'Ф': {}}, 'Области include': {}}
            if v == 'nofolder':      # later indexes say more about the folder
                d['Form']['Ф'] = None
            elif v != '-':
                d['Form']['Ф']['m.json'] = v
                final['file'] = v
            if i and case['w'][i - 1] != '-':
                d['Области include']['core_X'] = case['w'][i - 1] + '_X'
                final['area'] = case['w'][i - 1] + '_X'
            d['Form'][f'своя{i}'] = {'z.json': f'z{i}/z.json'}
            subs.append(d)
        main = subs.pop()
        names = []
        for i, d in enumerate(subs):
            names.append(f'sub{i}/index.json')
            fs.put(base, {names[-1]: json.dumps(d, ensure_ascii=False)})
        main['index.json'] = names
        fs.put(base, {'index.json': json.dumps(main, ensure_ascii=False)})
        index = self.helper.check_index('index.json')
        text = '// т\n#Область include_core_X\n\tВнутри();\n#КонецОбласти\n'
        stage = {'Form/Ф/m.json': '[m]', 'Form/Ф/m.obj.bsl': text}
        stage.update({f'Form/своя{i}/z.json': f'[z{i}]' for i in range(3)})
        fs.put(base + '/stage', stage)
        os.makedirs(base + '/root')
        os.chdir(base + '/root')
        self.org.unpack(base + '/stage', base + '/root/src', index=index)
        want = {f'z{i}/z.json': f'[z{i}]' for i in range(3)}
        want[final.get('file') or 'src/Form/Ф/m.json'] = '[m]'
        area = final.get('area', 'core_X').split('_')
        want[f'{area[0]}/{area[1]}.bsl'] = '\tВнутри();\n'
        want['src/Form/Ф/m.obj.bsl'] = text.replace('\tВнутри();\n', '')
        self.compare(want, self.texts(base + '/root'), 'extracted with a merged index')
        self.org.pack(base + '/root/src', base + '/out', index=index)
        self.compare(stage, self.texts(base + '/out'), 'built with a merged index')
        self.count(executions=2, states=len(want), transitions=3)
        return sorted(want)

    def gone(self, case):
        base = self.base()
        tree = {'root/src/' + posixpath.join(TOP, n): content(n, 'local') for n in FILES
                if n != case['gone'] or case['local']}
        tree['root/base/all/другой.bin'] = '1'
        fs.put(base, tree)
        os.chdir(base + '/root')
        index = make_index({case['gone']: 'нет/' + case['gone']}, case['star'], 'last', None)
        try:
            self.org.pack(base + '/root/src', base + '/out', index=index)
        except Exception as err:
            return type(err).__name__
        self.fail(f'{case["gone"]} is redirected to a file that does not exist, the build succeeded without it')

    def bad(self, case):
        """an index that cannot be understood is an error, never silently ignored"""
        base = self.base()
        kind = case['bad']
        good = {'Form': {'Ф': {'m.json': 'a/m.json'}}}
        data = good
        if kind == 'notjson':
            fs.put(base, {'index.json': '{"Form": '})
        elif kind == 'list':
            fs.put(base, {'index.json': '[1]'})
        elif kind == 'submissing':
            data = dict(good, **{'index.json': ['нет/index.json']})
        elif kind == 'subnotjson':
            fs.put(base, {'sub/index.json': '{'})
            data = dict(good, **{'index.json': ['sub/index.json']})
        elif kind == 'mismatch':
            fs.put(base, {'sub/index.json': json.dumps({'Form': 'x'})})
            data = dict(good, **{'index.json': ['sub/index.json']})
        elif kind == 'deepvalue':
            data = {'Form': 'строка вместо папки'}
        if kind not in ('missing', 'notjson', 'list'):
            fs.put(base, {'index.json': json.dumps(data)})
        fs.put(base + '/stage', {'Form/Ф/m.json': '[m]', 'Form/Ф/Глубже/k.json': '[k]'})
        os.makedirs(base + '/root')
        try:
            index = self.helper.check_index('index.json')
            self.org.unpack(base + '/stage', base + '/root/src', index=index)
        except Exception as err:
            if isinstance(err, (SyntaxError, NameError, AttributeError)):
                raise
            return kind, type(err).__name__
        self.fail(f'index problem "{kind}" was ignored: ' + ', '.join(sorted(self.texts(base + '/root'))))


CHECK = P09()
