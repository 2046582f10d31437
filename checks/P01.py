"""Every (container count, file count, name, size) shape within the bound is built by the real writer;
the result must be a well-formed container file for an independent strict reader and must be read back
identically by the real reader."""
import datetime
import itertools
import os

from mc import cfmt, env, fs
from mc.core import Check, product

NAMES = ['a', 'root', 'versions', '6da8b4b1-7fb8-4b91-9cc9-234d88a2710e', '6da8b4b1-7fb8-4b91-9cc9-234d88a2710e.0',
         'Имя с пробелом', 'x' * 60, 'A', 'ёж.bsl', 'Z9']


# the stamps count units of 100 microseconds from the first day of the first year, local time
BEGIN, TICK = datetime.datetime(1, 1, 1), datetime.timedelta(microseconds=100)
TIMES = [0, 1, 86400 * 59 - 1, 951782400, 10 ** 9, 10 ** 9 + 0.25, 1582934400.0001, 2 ** 31 - 1, 2 ** 31, 4102444800]


def ticks(t):
    return (datetime.datetime.fromtimestamp(t) - BEGIN) // TICK


def same(a, b):
    # the change time of a file cannot be chosen, it may lie next to the border of two units
    return abs(a[0] - b[0]) <= 1 and a[1] == b[1]


def mk(layout):
    """layout: list of containers, each list of [name, size, salt]"""
    return [[(n, fs.pattern(s, k)) for n, s, k in c] for c in layout]


class P01(Check):
    id = 'P01'
    rule = 'all layouts: {1,2} containers x file counts around the TOC block capacity x sizes around block/buffer ' \
           'sizes x name menu; each built, strictly parsed, extracted'
    bound = {'quick': '<=2 containers; sizes 0..1100 around 512-multiples; counts up to 129 (32-bit), 2732 (64-bit)',
             'thorough': 'every size 0..1600 and every count 1..140 (32-bit), triples of sizes, 64-bit counts 2729..2734'}

    def setup(self):
        from v8unpack.container_reader import extract
        from v8unpack.container_writer import build
        from v8unpack.container import Container
        self.container = Container
        self.extract, self.build = extract, build

    def spaces(self, tier):
        thorough = tier == 'thorough'
        edge = [0, 1, 30, 31, 32, 511, 512, 513, 543, 1023, 1024, 1025]
        sizes = range(0, 1601) if thorough else edge + [2, 100, 256, 1100, 4096, 70000]
        counts = list(range(1, 141)) if thorough else [1, 2, 3, 41, 42, 43, 44, 84, 85, 86, 127, 128, 129]

        def single():
            for s in sizes:
                yield dict(layout=[[['f', s, 1]]])

        def pairs():
            for a, b in itertools.product(edge, edge):
                yield dict(layout=[[['f', a, 1], ['g', b, 2]]])

        def triples():
            for a, b, c in itertools.product(edge, repeat=3):
                yield dict(layout=[[['f', a, 1], ['g', b, 2], ['h', c, 3]]])

        def count():
            for n in counts:
                for s in (0, 3, 512, 600):
                    yield dict(layout=[[[f'n{i:04}', s, i] for i in range(n)]])

        def names():
            for n in NAMES:
                yield dict(layout=[[[n, 5, 1]]])
            for a, b in itertools.permutations(NAMES, 2):
                yield dict(layout=[[[a, 5, 1], [b, 600, 2]]])
            yield dict(layout=[[[n, 7, i] for i, n in enumerate(NAMES)]])

        def two():
            for a, b in itertools.product(edge, edge):
                yield dict(layout=[[['f', a, 1]], [['g', b, 2]]])
            for n, m in itertools.product([1, 2, 5, 42, 43, 86], [1, 2, 5, 43]):
                yield dict(layout=[[[f'n{i:04}', 3 + i, i] for i in range(n)], [[f'm{i:04}', 500 + i, i] for i in range(m)]])
            for n in NAMES:
                yield dict(layout=[[[n, 5, 1]], [[n, 600, 2]]])

        def stamps():
            # seconds since 1970; the second file gets the next one
            for i, t in enumerate(TIMES):
                for layout in ([[['f', 3, 1]]], [[['f', 3, 1], ['g', 600, 2]]], [[['f', 3, 1]], [['g', 3, 2]]]):
                    yield dict(layout=layout, times=[t, TIMES[(i + 1) % len(TIMES)]])

        def big64():
            for n in ([2729, 2730, 2731, 2732, 2733, 2734, 5462] if thorough else [2730, 2731, 2732]):
                yield dict(layout=[[['stub', 10, 1]], [[f'm{i:05}', 1 + i % 3, i] for i in range(n)]])

        res = [('single', single()), ('pairs', pairs()), ('count', count()), ('names', names()), ('two', two()), ('stamps', stamps()),
               ('big64', big64())]
        if thorough:
            res.append(('triples', triples()))
        return res

    def run(self, case):
        w = os.path.join(env.scratch_dir(), 'p01')
        fs.wipe(w)
        layout = mk(case['layout'])
        src, out, dst = w + '/src', w + '/o/out.bin', w + '/dst'
        expect = {f'{i}/{n}': d for i, c in enumerate(layout) for n, d in c}
        fs.put(src, expect)
        stamps = {}
        for name, t in zip(sorted(expect), case.get('times', ())):
            os.utime(os.path.join(src, name), (t + 5, t))
        for name in expect if len(expect) < 200 else ():
            st = os.stat(os.path.join(src, name))
            stamps[name] = ticks(st.st_ctime), ticks(st.st_mtime)
        self.build(src, out, True)
        blob = open(out, 'rb').read()
        try:
            parsed = cfmt.parse(blob)
        except cfmt.Malformed as err:
            self.fail(f'written file is not a well-formed container: {err}')
        if [c['bits'] for c in parsed] != [32, 64][:len(layout)]:
            self.fail(f'container formats {[c["bits"] for c in parsed]}')
        seen = {f'{i}/{n}': d for i, c in enumerate(parsed) for n, d in c['files']}
        if seen != expect:
            self.fail('independent reader sees other content: ' + fs.diff(expect, seen))
        for i, c in enumerate(parsed):
            for n, got in c['times'].items():
                if f'{i}/{n}' in stamps and not same(got, stamps[f'{i}/{n}']):
                    self.fail(f'creation and modification stamps of {n} are {got}, those of the file '
                              f'{stamps[f"{i}/{n}"]}')
        if len(layout) == 1 and stamps:
            with open(out, 'rb') as f:
                c = self.container()
                c.read(f)
                for n, file in c.files.items():
                    got = tuple((t - BEGIN) // TICK for t in (file.created, file.modified))
                    if not same(got, stamps[f'0/{n}']):
                        self.fail(f'stamps of {n} are read as {got}, not {stamps[f"0/{n}"]}')
        self.extract(out, dst, False, False)
        got = fs.tree(dst)
        if got != expect:
            self.fail('extract(build(x)) != x: ' + fs.diff(expect, got))
        if fs.tree(src) != expect:
            self.fail('build changed its source directory')
        self.count(states=1 + len(layout), transitions=3 + len(expect), executions=1)
        return tuple((len(c), sum(len(d) for _, d in c), len(blob)) for c in layout)

    def conformance(self):
        """the independent reader agrees with genuine 1C files"""
        n = 0
        for f in GENUINE:
            path = os.path.join(env.REPO, 'tests', f)
            if not os.path.exists(path):
                continue
            blob = open(path, 'rb').read()
            w = os.path.join(env.scratch_dir(), 'conf')
            fs.wipe(w)
            self.extract(path, w, False, False)
            got = fs.tree(w)
            parsed = cfmt.parse(blob, strict_gaps=False) if False else lenient(blob)
            if parsed != got:
                self.fail(f'{f}: extract disagrees with the independent reader: ' + fs.diff(parsed, got))
            n += 1
        return n


GENUINE = ['ConfigurationExtension803/Расширение1.cfe', 'ExternalDataProcessor802/ВнешняяОбработка802.epf',
           'ExternalDataProcessor803/ВнешняяОбработка803.epf', 'ExternalReport803/ВнешнийОтчёт803.erf',
           'data/apam.cf', 'data/apam_old.cf', 'Configuration803/1Cv8.cf', 'Configuration803/1Cv8-16.cf']


def lenient(blob):
    """genuine files: follow chains only, second container (if any) at the genuine 0x1359"""
    import struct
    res = {}
    for ci, (base, f) in enumerate([(0, cfmt.F32), (0x1359, cfmt.F64)]):
        if base and blob[base:base + 8] != b'\xff' * 8:
            break

        def chain(off):
            data, size = b'', None
            while off != f.end:
                m = f.block_re.fullmatch(blob, base + off, base + off + f.block_header)
                doc, cur, nxt = (int(x, 16) for x in m.groups())
                size = doc if size is None else size
                data += blob[base + off + f.block_header: base + off + f.block_header + cur]
                off = nxt
            return data[:size]
        toc = chain(f.header.size)
        e = 3 * struct.calcsize(f.idx)
        for i in range(len(toc) // e):
            attr, data, _ = struct.unpack('<3' + f.idx[1], toc[i * e:(i + 1) * e])
            name = chain(attr)[20:].decode('utf-16-le', 'replace').partition('\0')[0]
            res[f'{ci}/{name}'] = chain(data) if data != f.end else b''
    return res


CHECK = P01()
