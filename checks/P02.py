"""Every fragmentation of the directory, the attribute records and the file bodies into chained blocks
within the bound, in every physical block order, is laid out by an independent writer and must be read back
exactly by the real extractor - alone, and as first/second container of a two-container file."""
import itertools
import os

from mc import cfmt, env, fs
from mc.core import Check, product

F = {32: cfmt.F32, 64: cfmt.F64}


class P02(Check):
    id = 'P02'
    chunk = 8
    rule = 'product of directory split x attribute split x body split x physical order x padding x name tail x ' \
           'body sizes x container width x position in the file'
    bound = {'quick': '<=4 files, <=5 blocks per document', 'thorough': 'as quick with all triples of body sizes and 43/86-file directories in every order'}

    def setup(self):
        from v8unpack.container_reader import extract
        self.extract = extract

    def spaces(self, tier):
        thorough = tier == 'thorough'
        orders = ['seq', 'rev', 'inter', 'byindex']

        def frag():
            for bits, n, toc, attr, data, order in itertools.product(
                    (32, 64), (1, 2, 3), ([], [12], [24, 12], [5], [512]), ([], [20], [7], [22, 4]),
                    ([], [512], [513, 100], [100]), orders):
                if bits == 64 and toc and toc[0] < 512:
                    toc = [x * 2 for x in toc]
                yield dict(c=[dict(bits=bits, sizes=[700 * i + 3 for i in range(n)], toc_split=toc, attr_split=attr,
                                   data_split=data, order=order)])

        def sizes():
            edge = [0, 1, 99, 100, 101, 200, 511, 512, 513, 1024, 1025, 1500]
            rep = itertools.product(edge, repeat=2) if not thorough else itertools.product(edge, repeat=3)
            for ss in rep:
                for bits, data, pad in itertools.product((32, 64), ([], [100], [512]), (0x200, 0, 700)):
                    yield dict(c=[dict(bits=bits, sizes=list(ss), data_split=data, data_pad=pad)])

        def tails():
            for junk, case, tail, legacy, order in itertools.product(
                    ('', '00000000', '000041004200', '410000004300', 'ffff'), ('lower', 'upper'), (False, True),
                    (False, True), orders):
                if legacy and tail:   # no writer ever produced that: old single-block directories have no tail
                    continue
                for bits in (32, 64):
                    yield dict(c=[dict(bits=bits, sizes=[5, 600], junk=junk, hexcase=case, extra_tail=tail,
                                       legacy_toc=legacy, order=order)])

        def many():
            for n, order, tail, toc in itertools.product(
                    (42, 43, 44, 85, 86, 128, 129) if thorough else (43, 86), orders, (False, True), ([512], [504], [12], [1024])):
                yield dict(c=[dict(bits=32, sizes=[i % 7 for i in range(n)], toc_split=toc, order=order, extra_tail=tail)])

        def two():
            for toc, data, attr, order, n in itertools.product(([], [12], [24], [512]), ([], [100], [512]), ([], [20]),
                                                               orders, (1, 2, 50)):
                if n == 50 and toc not in ([512], [12]):
                    continue
                for bits2, toc2, order2 in itertools.product((64, 32), ([], [24]), ('seq', 'rev')):
                    yield dict(c=[dict(bits=32, sizes=[450 + i for i in range(n)], toc_split=toc, data_split=data,
                                       attr_split=attr, order=order),
                                  dict(bits=bits2, sizes=[600, 5, 0], toc_split=toc2, order=order2)])
            for legacy in (False, True):
                for n, m in itertools.product((1, 2, 3), (1, 2)):
                    yield dict(c=[dict(bits=32, sizes=[10] * n, legacy_toc=legacy), dict(bits=64, sizes=[10] * m)])

        def empty():
            # files that have no data document
            for n in (1, 2, 3):
                for ss in itertools.product((0, 5, 600), repeat=n):
                    if 0 not in ss:
                        continue
                    for bits, toc, order, tail in itertools.product((32, 64), ([], [12], [24], [5]), orders, (False, True)):
                        one = dict(bits=bits, sizes=list(ss), toc_split=toc, order=order, extra_tail=tail, nodata=True)
                        yield dict(c=[one])
                        if bits == 32:
                            yield dict(c=[one, dict(bits=64, sizes=[0, 5], nodata=order == 'rev')])

        return [('empty', empty()), ('frag', frag()), ('sizes', sizes()), ('tails', tails()), ('many', many()), ('two', two())]

    def run(self, case):
        w = os.path.join(env.scratch_dir(), 'p02')
        fs.wipe(w)
        os.makedirs(w)
        blob, expect = b'', {}
        for ci, c in enumerate(case['c']):
            c = dict(c)
            f = F[c.pop('bits')]
            files = [(f'имя{i}' if i % 2 else f'file.{i}', fs.pattern(s, i)) for i, s in enumerate(c.pop('sizes'))]
            c['junk'] = b'\0\0' + bytes.fromhex(c['junk']) if c.get('junk') else b''
            blob += cfmt.write_container(f, files, **c)
            expect.update({f'{ci}/{n}': d for n, d in files})
        path = w + '/in.bin'
        with open(path, 'wb') as fd:
            fd.write(blob)
        self.extract(path, w + '/dst', False, False)
        got = fs.tree(w + '/dst')
        if got != expect:
            self.fail('extracted files differ from the stored ones: ' + fs.diff(expect, got))
        if open(path, 'rb').read() != blob:
            self.fail('extract changed the input file')
        self.count(states=len(expect), transitions=len(expect), executions=1)
        return len(expect), len(blob)


CHECK = P02()
