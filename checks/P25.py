"""The registers a product keeps of itself: every kind of product and object with every set of members, extracted, changed or
not, and built; the list of members, the checksums, the roots and the tables of contents must describe what is there."""
import base64
import hashlib
import importlib
import os
import zlib

from mc import cfmt, drive, fs, v8conf
from mc.core import Check, Violation
from checks import P16


def registers(blob, genuine=False):
    """problems of the registers of the last container of a product file"""
    files = dict(cfmt.parse(blob, not genuine, not genuine)[-1]['files'])
    out = []

    def text(name):
        return v8conf.read_brace(zlib.decompress(files[name], -15))
    if 'versions' in files:
        row, = text('versions')
        names, ids = [x[1:-1] for x in row[2::2]], row[3::2]
        if row[0] != '1' or row[1] != str(len(names)) or len(ids) != len(names):
            out.append(f'versions counts {row[1]} entries, there are {len(names)}')
        if names[:1] != ['']:
            out.append('versions does not begin with the version of the product')
        for n in sorted(set(files) - set(names)):
            out.append(f'versions does not list the member {n}')
        for n in sorted(set(names) - set(files) - {''}):
            out.append(f'versions lists {n}, there is no such member')
        for n in sorted({n for n in names if names.count(n) > 1}):
            out.append(f'versions lists {n or "the product"} {names.count(n)} times')
        if len(set(ids)) != len(ids) or not all(len(x) == 36 and set(x) <= set('0123456789abcdef-') for x in ids):
            out.append('versions has identifiers that are no identifiers or not different')
    elif 'configinfo' not in files:
        out.append('the product has neither versions nor configinfo')
    info = None
    if 'configinfo' in files:
        info = text('configinfo')
        row = info[2]
        names = [x[1:-1] for x in row[1::2]]
        if row[0] != str(len(names)) or len(row) != 1 + 2 * len(names):
            out.append(f'configinfo counts {row[0]} entries, there are {len(names)}')
        if sorted(names) != sorted(set(files) - {'configinfo'}):
            out.append(f'configinfo lists {sorted(set(names) ^ (set(files) - {"configinfo"}))} otherwise than there is')
        for n, s in zip(names, row[2::2]):
            if n in files and base64.b64encode(hashlib.sha1(files[n]).digest()).decode() != s:
                out.append(f'configinfo has another checksum of {n}')
    root = text('root')[0][1] if 'root' in files else info[1][1]
    if root not in files:
        out.append('the description of the product itself is named, but is not there')
    return out


class Watched(drive.Driver):
    """looks into every product built"""
    bad = ()

    def build(self, *a, **k):
        blob = super().build(*a, **k)
        self.bad += tuple(registers(blob))
        v8conf.unpack(blob)
        return blob


class P25(Check):
    id = 'P25'
    chunk = 8
    rule = 'every product of the checks of round trips, of edited payloads, of folders removed and brought, of stamps and of ' \
           'forms, as built by them; every product kind and object kind with all members x every file (pair of files of a ' \
           'folder) removed from the sources, emptied, or built with descent'
    bound = {'quick': 'single files; payloads up to 2 MB; the products of P15 (objects, roots, templates, forms), P18, P19, '
             'P22, P24 within their quick bounds, without options, pairs and forests',
             'thorough': 'files with one of the seven next; the products of P15, P16, P18, P19, P22-P24'}
    BORROWED = {
        'P15': ('roots', 'toc', 'names', 'templates', 'forms', 'objects'), 'P16': (),
        'P18': ('top', 'nested', 'ids', 'products'), 'P19': ('stamps',), 'P22': ('shapes', 'parents', 'moved'), 'P24': ('kinds',)}
    DEEP = {'P15': ('deep', 'many', 'pairs', 'two', 'descent'), 'P16': ('kinds', 'storing'), 'P18': ('many',), 'P19': ('compat',),
            'P22': ('lists', 'links', 'unknown', 'groups'), 'P23': ('same',), 'P24': ('shared', 'unknown', 'pages')}

    def setup(self):
        from v8unpack.ext_exception import ExtException
        self.refusal = ExtException
        self.d = Watched()
        self.others = {}

    def conformance(self):
        folder = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures')
        for n, name in enumerate(sorted(os.listdir(folder)), 1):
            with open(os.path.join(folder, name), 'rb') as f:
                bad = registers(f.read(), genuine=True)
            if bad:
                raise AssertionError(f'{name}: {bad}')
        return n

    def other(self, name):
        if name not in self.others:
            check = importlib.import_module(f'checks.{name}').CHECK
            check.setup()
            check.d = self.d
            self.others[name] = check
        return self.others[name]

    def spaces(self, tier):
        deep = tier == 'thorough'
        out = [('lost', self.lost(deep)), ('large', self.large())]
        for name in sorted({**self.BORROWED, **self.DEEP}):
            wanted = self.BORROWED.get(name, ()) + (self.DEEP.get(name, ()) if deep else ())
            for space, cases in importlib.import_module(f'checks.{name}').CHECK.spaces(tier):
                if space in wanted:
                    out.append((f'{name} {space}', self.of(name, cases, deep)))
        return out

    @staticmethod
    def of(name, cases, deep):
        for c in cases:
            if deep or name not in ('P15', 'P24') or not (c.get('opt') or c.get('auto')) or 'area' in c:
                yield dict(of=name, case=c)

    @staticmethod
    def large():
        """payloads larger than a block of anything that reads them, and help of the size from which it is kept as it is"""
        noise = [hashlib.shake_256(b'noise').digest(n) for n in (8100, 8200, 65000, 65600, 131100, 1_100_000)]
        for kind in ('cf', 'cfe'):
            for o, path in ((dict(t='Catalog', n='Имя', m=['help', 'predef']), ('help',)),
                            (dict(t='Catalog', n='Имя', m=['help', 'predef']), ('predef',)),
                            (dict(t='CommonTemplate', n='Макет', tt='html'), ('data',)),
                            (dict(t='CommonTemplate', n='Макет', tt='base64'), ('data',)),
                            (dict(t='CommonPicture', n='Картинка'), ('data',))):
                for x in noise + P16.BIG:
                    yield dict(desc=dict(kind=kind, objs=[P16.put(o, path, P16.b64(x))]), auto=False, way='gone', files=[])

    @staticmethod
    def lost(deep):
        """the files of a source tree are known only when it is there: their numbers here, those beyond the last end a run at once"""
        for desc in P16.P16.products():
            files = len(v8conf.Product(desc).tree) + 6
            for auto in (False, True):
                for way in ('gone', 'empty'):
                    for nth in range(files):
                        yield dict(desc=desc, auto=auto, way=way, files=[nth])
                        if deep:
                            for more in range(nth + 1, nth + 8):
                                yield dict(desc=desc, auto=auto, way=way, files=[nth, more])
            yield dict(desc=desc, auto=False, descent=3000075100, files=[], way='gone')

    def run(self, case):
        self.d.bad, result = (), None
        if 'of' in case:
            check = self.other(case['of'])
            try:
                check.run(case['case'])
            except (Violation, self.refusal):
                pass        # the property of the other check
            self.count(**{k: v for k, v in check.stats.items() if k in ('executions', 'transitions')})
            check.stats.clear()
        else:
            result = self.removed(case)
        if self.d.bad:
            self.fail('; '.join(self.d.bad[:5]))
        return result

    def removed(self, case):
        opt = {'auto_include': True} if case['auto'] else {}
        if 'descent' in case:
            opt['descent'] = case['descent']
        p = v8conf.Product(case['desc'])
        self.d.start()
        src = self.d.extract(v8conf.pack(p.tree), options=opt or None)
        files = sorted(fs.tree(src))
        if max(case['files'], default=0) >= len(files):
            return 'no such file'
        for n in case['files']:
            path = os.path.join(src, files[n])
            if path.endswith('/'):
                return 'a folder'
            if case['way'] == 'gone':
                os.remove(path)
            else:
                open(path, 'w').close()
        self.count(executions=2, transitions=len(p.tree))
        try:
            self.d.build(options=opt or None)
        except self.refusal:
            return 'refused'


CHECK = P25()
