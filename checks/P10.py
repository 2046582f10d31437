"""Every small source tree x every partial existing index x with/without a shared folder x plain/versioned file
names: updating the index keeps every existing entry, adds exactly one entry per unlisted file (without version
suffix), is idempotent, and the result redirects what it says on extraction and build."""
import itertools
import json
import os
import posixpath

from mc import env, fs
from mc.core import Check
from checks.P09 import content, same

NAMES = ['Ф.obj.bsl', 'Ф.elem.json', 'Ф.id.json', 'Роль.0.c1brace', 'Заставка', 'Ф.007.txt', 'dummy.zip']
DIRS = ['', 'Form', 'Form/Первая']
NUMBERED = ['Configuration.4.json', 'Configuration.8.json', 'Configuration.9.json', 'Configuration.10.json']


class P10(Check):
    id = 'P10'
    chunk = 16
    rule = 'placements of <=3 files in 3 nested folders x per-file existing entry (none, empty, null, redirect) x ' \
           'service keys x shared folder x version suffix sets'
    bound = {'quick': '7 file names, <=3 files', 'thorough': '<=4 files'}

    def setup(self):
        import v8unpack
        from v8unpack.organizer_file import OrganizerFile
        from v8unpack.organizer_file_ce import OrganizerFileCE
        from v8unpack.index import update_index
        self.org, self.ce, self.update = OrganizerFile, OrganizerFileCE, update_index

    def spaces(self, tier):
        top = 4 if tier == 'thorough' else 3
        places = [posixpath.join(d, n) for d in DIRS for n in NAMES]

        def plain():
            for k in range(0, 3):
                for files in itertools.combinations(places, k):
                    for pre in itertools.product(['-', '', None, 'общее/x_{}'], repeat=k):
                        for core in (None, 'core', 'core/глубже'):
                            for service in (0, 1):
                                yield dict(files=list(files), pre=list(pre), core=core, service=service)
            for k in range(3, top + 1):
                for files in itertools.combinations(places[::2] if k == 4 else places, k):
                    for core in (None, 'core'):
                        yield dict(files=list(files), pre=['общее/x_{}'] + ['-'] * (k - 1), core=core, service=1)

        def versioned():
            for files in itertools.combinations(places, 2):
                for v in itertools.product([(0,), (5,), (5, 70), (0, 70)], repeat=2):
                    for pre in (['-', '-'], ['общее/x_{}', '-']):
                        for core in (None, 'core'):
                            yield dict(files=list(files), vers=[list(x) for x in v], pre=pre, core=core, service=0)
        def numbered():
            # parts of a configuration that are named by their number
            for n in ('4', '8', '9', '10', 'a'):
                for core in (None, 'core'):
                    yield dict(files=['Configuration.json', f'Configuration.{n}.json'], pre=['-', '-'], core=core,
                               service=0)
        def unreadable():
            for text in ('', '{"Form": ', '[1]', '"строка"', '5', 'null', b'\xcf\xf0\xe8'.decode('latin1'), '{"Form": {"a": 1}} x'):
                for core in (None, 'core'):
                    for files in ([], ['Form/Первая/Ф.obj.bsl'], ['Ф.id.json', 'Form/Ф.id.json']):
                        yield dict(unreadable=text, files=files, core=core)
        return [('plain', plain()), ('unreadable', unreadable()), ('versioned', versioned()), ('numbered', numbered())]

    @staticmethod
    def with_suffix(path, v):
        d, n = posixpath.split(path)
        if v:
            parts = n.split('.')
            parts.insert(-1, str(v))
            n = '.'.join(parts)
        return posixpath.join(d, n)

    @staticmethod
    def put_entry(index, path, value):
        *dirs, name = path.split('/')
        for d in dirs:
            index = index.setdefault(d, {})
        index[name] = value

    @staticmethod
    def entries(index, path=''):
        out = {}
        for k, v in index.items():
            if isinstance(v, dict):
                out.update(P10.entries(v, posixpath.join(path, k)))
            else:
                out[posixpath.join(path, k)] = v
        return out

    def unreadable(self, case):
        """a directory file that cannot be understood is kept, the command fails"""
        base = fs.fresh(os.path.join(env.scratch_dir(), 'p10'))
        fs.put(base, {'src/' + f: '1' for f in case['files']})
        os.makedirs(base + '/src', exist_ok=True)
        data = case['unreadable'].encode('latin1' if 'Ï' in case['unreadable'] else 'utf-8')
        with open(base + '/index.json', 'wb') as f:
            f.write(data)
        try:
            self.update(base + '/src', base + '/index.json', case['core'])
        except Exception as err:
            what = type(err).__name__
        else:
            what = None
        with open(base + '/index.json', 'rb') as f:
            now = f.read()
        same = now == data
        try:
            same = same or json.loads(now) == json.loads(data)
        except ValueError:
            pass
        if not same:
            self.fail(f'a directory file with the content {data!r} was replaced')
        if what is None and case['files']:
            self.fail(f'a directory file with the content {data!r} was not refused')
        self.count(executions=1, states=1, transitions=1)
        return what

    def run(self, case):
        if 'unreadable' in case:
            return self.unreadable(case)
        base = fs.fresh(os.path.join(env.scratch_dir(), 'p10'))
        versioned = 'vers' in case
        root = base + '/root'
        src = root + ('/src/prod' if versioned else '/src')
        if versioned and any(len(posixpath.basename(f).split('.')) < 2 for f in case['files']):
            return 'names without extension are not versioned'
        tree = {}
        for i, f in enumerate(case['files']):
            for v in case['vers'][i] if versioned else (0,):
                tree[self.with_suffix(f, v)] = content(posixpath.basename(f), f'{f} {v}')
        fs.put(src, tree)
        index = {}
        for f, p in zip(case['files'], case['pre']):
            if p != '-':
                self.put_entry(index, f, p and p.format(posixpath.basename(f)))
        if case['service']:
            index['Области include'] = {'core_А': 'core_Б'}
            index['Нет'] = {'такого.json': '', '*': 'z'}
        before = self.entries(index)
        path = base + '/index.json'
        if index or case['service']:
            fs.put(base, {'index.json': json.dumps(index, ensure_ascii=False)})
        self.update(src, path, case['core'])
        with open(path, encoding='utf-8') as f:
            text = f.read()
        got = self.entries(json.loads(text))
        want = dict(before)
        for f in case['files']:
            want.setdefault(f, posixpath.join(case['core'], f) if case['core'] else '')
        if got != want:
            self.fail('updated index: ' + ', '.join(
                f'{k}: {got.get(k, "нет")!r} instead of {want.get(k, "нет")!r}'
                for k in sorted(set(got) | set(want)) if got.get(k, 'нет') != want.get(k, 'нет')),
                key='numbered configuration part' if got == {k: v for k, v in want.items() if k not in NUMBERED}
                else None)
        now = fs.files_only(fs.tree(src))
        if now != {k: v.encode() for k, v in tree.items()}:
            self.fail('updating the index changed the sources')
        self.update(src, path, case['core'])
        with open(path, encoding='utf-8') as f:
            if f.read() != text:
                self.fail('updating the index twice changes it')
        if versioned:
            self.count(executions=2, states=2, transitions=2)
            return sorted(got.items())
        # what the index now says is what happens
        index = json.loads(text)
        if len(set(posixpath.normpath(v) for v in want.values() if v)) < len([v for v in want.values() if v]):
            return 'two files redirected to one place'
        stage = {f: content(posixpath.basename(f), 'new ' + f) for f in case['files']}
        fs.wipe(root)
        fs.put(base + '/stage', stage)
        os.makedirs(root)
        self.org.unpack(base + '/stage', src, index=index)
        seen = {k: v.decode() for k, v in fs.files_only(fs.tree(root)).items()}
        places = {posixpath.normpath(want[f] or 'src/' + f): stage[f] for f in case['files']}
        for k in sorted(set(seen) | set(places)):
            if k not in seen or k not in places or not same(seen[k], places[k], k):
                self.fail(f'extraction with the updated index: {k} '
                          + ('missing' if k not in seen else 'unexpected' if k not in places else 'differs'))
        os.chdir(root)
        self.org.pack(src, base + '/out', index=index)
        out = {k: v.decode() for k, v in fs.files_only(fs.tree(base + '/out')).items()}
        for k in sorted(set(out) | set(stage)):
            if k not in out or k not in stage or not same(out[k], stage[k], k):
                self.fail(f'build with the updated index: {k} '
                          + ('missing' if k not in out else 'unexpected' if k not in stage else 'differs'))
        self.count(executions=4, states=4, transitions=4)
        return sorted(got.items())


CHECK = P10()
