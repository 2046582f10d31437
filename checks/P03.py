"""Every (payload shape, size around the buffer sizes, deflate encoding, nesting) within the bound goes
through the compressed layer: what is compressed by the tool inflates to the same bytes (independently and by
the tool), every valid deflate encoding of a payload is inflated completely, nested containers open to the
same files; two-stage and one-stage extraction agree."""
import itertools
import os
import zlib

from mc import cfmt, env, fs
from mc.core import Check

ZERO8K = 8192


def payload(kind, size):
    if kind == 'rand':
        return fs.pattern(size, size)
    if kind == 'zero':
        return b'\0' * size
    if kind == 'text':
        unit = 'Процедура А()\r\n\tБ = "ё";\r\nКонецПроцедуры\r\n'.encode('utf-8')
        return (unit * (size // len(unit) + 1))[:size]
    if kind == 'magic3':      # almost a container
        return (b'\xff\xff\xff' + fs.pattern(size, 3).replace(b'\x7f', b'\x7e'))[:size]
    if kind == 'brace':
        return (b'\xef\xbb\xbf{1,0}' + b' ' * size)[:size]
    raise ValueError(kind)


def deflate(data, enc):
    name, _, arg = enc.partition(':')
    if name == 'level':
        c = zlib.compressobj(int(arg), wbits=-15)
        return c.compress(data) + c.flush()
    if name == 'strategy':
        c = zlib.compressobj(6, zlib.DEFLATED, -15, 8, int(arg))
        return c.compress(data) + c.flush()
    if name == 'flush':       # sync flush every arg bytes
        c = zlib.compressobj(6, wbits=-15)
        n = int(arg)
        out = b''.join(c.compress(data[i:i + n]) + c.flush(zlib.Z_SYNC_FLUSH) for i in range(0, len(data), n))
        return out + c.flush()
    if name == 'empties':     # arg empty stored blocks, then the data
        return b'\0\0\0\xff\xff' * int(arg) + deflate(data, 'level:6')
    if name == 'midempties':  # data, arg empty stored blocks, data
        c = zlib.compressobj(6, wbits=-15)
        half = len(data) // 2
        a = c.compress(data[:half]) + c.flush(zlib.Z_FULL_FLUSH)
        c = zlib.compressobj(6, wbits=-15)
        return a + b'\0\0\0\xff\xff' * int(arg) + c.compress(data[half:]) + c.flush()
    if name == 'bytewise':    # the first three bytes arrive one block each
        c = zlib.compressobj(0, wbits=-15)
        out = b''.join(c.compress(data[i:i + 1]) + c.flush(zlib.Z_FULL_FLUSH) for i in range(min(3, len(data))))
        return out + c.compress(data[3:]) + c.flush()
    raise ValueError(enc)


def inflate(blob):
    d = zlib.decompressobj(-15)
    out = d.decompress(blob) + d.flush()
    if not d.eof:
        raise cfmt.Malformed('deflate stream is not terminated')
    if d.unused_data:
        raise cfmt.Malformed('bytes after the end of the deflate stream')
    return out


class P03(Check):
    id = 'P03'
    chunk = 4
    rule = 'payload kinds x sizes x {tool, 12 foreign deflate encodings} x nesting depth; all pairs of nested members'
    bound = {'quick': 'sizes within +-3 of every multiple of 512/8192 up to 3 buffers, nesting <=3',
             'thorough': 'every size 0..1100 and 8150..8220, 16370..16400'}

    def setup(self):
        from v8unpack.container_reader import decompress_and_extract, extract
        from v8unpack.container_writer import build, compress_and_build
        self.dec, self.comp, self.extract, self.build = decompress_and_extract, compress_and_build, extract, build

    def spaces(self, tier):
        thorough = tier == 'thorough'
        around = [m + d for m in (512, 1024, 8192, 16384, 24576) for d in (-6, -5, -3, -1, 0, 1, 3, 5)]
        sizes = [0, 1, 2, 3, 4, 5, 8, 100] + around + [100000]
        if thorough:
            sizes = sorted(set(sizes) | set(range(0, 1101)) | set(range(8150, 8221)) | set(range(16370, 16401)))
        kinds = ['rand', 'zero', 'text', 'magic3', 'brace']

        def own():
            for k, s in itertools.product(kinds, sizes):
                yield dict(mode='own', kind=k, size=s)
            yield dict(mode='own', kind='zero', size=20 << 20)

        encs = ['level:0', 'level:1', 'level:6', 'level:9', 'strategy:1', 'strategy:2', 'strategy:3', 'strategy:4',
                'flush:1000', 'flush:100', 'empties:1', 'empties:1639', 'empties:4000', 'midempties:1', 'midempties:1700',
                'midempties:5000', 'bytewise']

        def foreign():
            ss = [0, 1, 3, 4, 5, 511, 512, 8186, 8187, 8192, 8193, 20000, 100000]
            if thorough:
                ss += list(range(8150, 8220)) + list(range(16360, 16400))
            for e, k, s in itertools.product(encs, ['rand', 'zero', 'text'], ss):
                yield dict(mode='foreign', enc=e, kind=k, size=s)

        def nested():
            edge = [0, 1, 511, 512, 513, 8192, 20000]
            for a, b in itertools.product(edge, edge):
                for top in (0, 600):
                    yield dict(mode='nested', tree={'x.0': {'info': a, 'text': b}, 'plain': top})
            for n in (1, 41, 42, 43, 90):
                yield dict(mode='nested', tree={'x.0': {f'f{i}': i for i in range(n)}})
            for n in (1, 2, 5):
                yield dict(mode='nested', tree={f'x.{i}': {'info': 10 * i, 'module': 500 + i} for i in range(n)})
            for a in edge:
                yield dict(mode='nested', tree={'x.0': {'sub': {'deep': a, 'deeper': {'leaf': a}}, 'text': 7}})
                yield dict(mode='nested', tree={'x.0': {'sub': {'deep': a}}})

        def nested_foreign():
            for e, depth, toc, data, order in itertools.product(
                    encs, (1, 2, 3), ([], [12]), ([], [100]), ('seq', 'rev', 'inter')):
                yield dict(mode='nested_foreign', enc=e, depth=depth, toc=toc, data=data, order=order)
        def outputs():
            """contents so compressible that the last byte of the stream still produces many bytes, with lengths around
            the powers of two an implementation may use to limit a portion of the output"""
            for k in range(9, 23):
                for d in range(261):
                    if thorough or k < 19 or d % 3 == 2 or d < 2:
                        yield dict(mode='own', kind='zero', size=(1 << k) + d)
                    if d % 16 == 2:
                        for mult in (3, 5):
                            yield dict(mode='own', kind='zero', size=mult * (1 << k) + d)
                            yield dict(mode='foreign', enc='flush:1000', kind='text', size=mult * (1 << k) + d)
        return [('own', own()), ('outputs', outputs()), ('foreign', foreign()), ('nested', nested()), ('nested_foreign', nested_foreign())]

    def run(self, case):
        w = os.path.join(env.scratch_dir(), 'p03')
        fs.wipe(w)
        os.makedirs(w)
        return getattr(self, 'run_' + case['mode'])(case, w)

    def check_tree(self, expect, folder, what):
        got = fs.tree(folder)
        if got != expect:
            self.fail(f'{what}: ' + fs.diff(expect, got))

    def run_own(self, case, w):
        data = payload(case['kind'], case['size'])
        fs.put(w + '/1/0', {'f': data, 'g': b'tail'})
        self.comp(w + '/1', w + '/0')
        packed = fs.tree(w + '/0')
        if set(packed) != {'0/f', '0/g'}:
            self.fail(f'compressed set of files {sorted(packed)}')
        try:
            if inflate(packed['0/f']) != data:
                self.fail('compressed file does not inflate to its source')
        except (zlib.error, cfmt.Malformed) as err:
            self.fail(f'compressed file is not a complete deflate stream: {err}')
        self.dec(w + '/0', w + '/2')
        self.check_tree({'0/f': data, '0/g': b'tail'}, w + '/2', 'decompress(compress(x)) != x')
        self.build(w + '/0', w + '/out', True)
        self.extract(w + '/out', w + '/3')
        self.check_tree({'0/f': data, '0/g': b'tail'}, w + '/3', 'one-stage extraction differs')
        self.count(states=4, transitions=4, executions=1)
        return case['kind'], len(packed['0/f'])

    def run_foreign(self, case, w):
        data = payload(case['kind'], case['size'])
        blob = deflate(data, case['enc'])
        assert inflate(blob) == data
        fs.put(w + '/0/0', {'f': blob})
        self.dec(w + '/0', w + '/2')
        self.check_tree({'0/f': data}, w + '/2', f'deflate stream ({case["enc"]}) not inflated completely')
        with open(w + '/in', 'wb') as f:
            f.write(cfmt.write_container(cfmt.F32, [('f', blob)]))
        self.extract(w + '/in', w + '/3')
        self.check_tree({'0/f': data}, w + '/3', 'one-stage extraction differs')
        self.count(states=3, transitions=2, executions=1)
        return case['enc'], len(blob)

    def run_nested(self, case, w):
        expect = {}

        def mk(node, path):
            for name, val in node.items():
                if isinstance(val, dict):
                    mk(val, f'{path}/{name}')
                else:
                    expect[f'{path}/{name}'] = fs.pattern(val, val + 1)
        mk(case['tree'], '0')
        fs.put(w + '/1', expect)
        self.comp(w + '/1', w + '/0')

        def read(blob, path, out):
            if blob[:4] == b'\xff\xff\xff\x7f':
                for name, data in cfmt.parse(blob)[0]['files']:
                    read(data, f'{path}/{name}', out)
            else:
                out[path] = blob
        seen = {}
        for k, v in fs.tree(w + '/0').items():
            try:
                read(inflate(v), k, seen)
            except (zlib.error, cfmt.Malformed) as err:
                self.fail(f'{k}: {err}')
        if seen != expect:
            self.fail('independent reader: ' + fs.diff(expect, seen))
        self.dec(w + '/0', w + '/2')
        self.check_tree(expect, w + '/2', 'decompress(compress(x)) != x')
        self.build(w + '/0', w + '/out', True)
        self.extract(w + '/out', w + '/3')
        self.check_tree(expect, w + '/3', 'one-stage extraction differs')
        self.count(states=4, transitions=4, executions=1)
        return len(expect), sum(len(x) for x in expect.values())

    def run_nested_foreign(self, case, w):
        expect = {}

        def mk(depth, path):
            files = [('info', b'{3,1}'), ('text', fs.pattern(700, depth))]
            for n, d in files:
                expect[f'{path}/{n}'] = d
            if depth > 1:
                files.append(('sub', mk(depth - 1, path + '/sub')))
            return cfmt.write_container(cfmt.F32, files, toc_split=case['toc'], data_split=case['data'],
                                        order=case['order'])
        blob = deflate(mk(case['depth'], '0/x.0'), case['enc'])
        fs.put(w + '/0/0', {'x.0': blob})
        self.dec(w + '/0', w + '/2')
        self.check_tree(expect, w + '/2', 'nested container')
        with open(w + '/in', 'wb') as f:
            f.write(cfmt.write_container(cfmt.F32, [('x.0', blob)]))
        self.extract(w + '/in', w + '/3')
        self.check_tree(expect, w + '/3', 'one-stage extraction differs')
        self.count(states=3, transitions=2, executions=1)
        return len(expect), len(blob)


CHECK = P03()
