"""Independent model of the 1C container format: a strict reader and a free-form writer.

Written from the format description (docs/8.3.16.md and the layout of genuine 1C files), shares no
code with the code under test. All offsets inside a container are relative to its start.
"""
import re
import struct

EPOCH_MAX = 0x7fffffffffffffff


class Fmt:
    def __init__(self, bits):
        self.bits = bits
        if bits == 32:
            self.end, self.hex, self.idx, self.index_block = 0x7fffffff, 8, '<i', 0x200
            self.header = struct.Struct('<4i')
        else:
            self.end, self.hex, self.idx, self.index_block = 0xffffffffffffffff, 16, '<Q', 0x10000
            self.header = struct.Struct('<Q3i')
        self.block_header = 2 + (self.hex + 1) * 3 + 2
        self.block_re = re.compile(
            (r'\r\n([0-9a-fA-F]{%d}) ([0-9a-fA-F]{%d}) ([0-9a-fA-F]{%d}) \r\n' % ((self.hex,) * 3)).encode())

    def bh(self, doc, cur, nxt):
        return ('\r\n%0*x %0*x %0*x \r\n' % (self.hex, doc, self.hex, cur, self.hex, nxt)).encode()


F32, F64 = Fmt(32), Fmt(64)


class Malformed(Exception):
    pass


def need(cond, text):
    if not cond:
        raise Malformed(text)


def parse(blob, strict_gaps=True, counted=True):
    """-> [ {bits, files: [(name, data)], default_block} ... ]"""
    result = []
    base = 0
    while base < len(blob):
        f = F32 if blob[base:base + 4] == b'\xff\xff\xff\x7f' else F64
        c, end = parse_container(blob, base, f, strict_gaps, counted)
        result.append(c)
        need(end > base, 'container of size 0')
        base = end
    return result


def parse_container(blob, base, f, strict_gaps, counted=True):
    need(len(blob) - base >= f.header.size, 'header truncated')
    first, default_block, count, zero = f.header.unpack_from(blob, base)
    need(first == f.end, f'first empty block {first:x} is not the end marker')
    need(default_block == 0x200, f'default block size {default_block}')
    need(zero == 0, 'header reserved field')
    spans = [(0, f.header.size)]

    def chain(offset, what):
        data = b''
        doc_size = None
        seen = set()
        blocks = 0
        while offset != f.end:
            need(offset not in seen, f'{what}: chain loops')
            seen.add(offset)
            need(base + offset + f.block_header <= len(blob), f'{what}: block header at {offset} beyond the file')
            m = f.block_re.fullmatch(blob, base + offset, base + offset + f.block_header)
            need(m, f'{what}: bad block header at {offset}')
            doc, cur, nxt = (int(x, 16) for x in m.groups())
            if doc_size is None:
                doc_size = doc
            else:
                need(doc == 0, f'{what}: continuation block declares document size {doc}')
            body = blob[base + offset + f.block_header: base + offset + f.block_header + cur]
            need(len(body) == cur, f'{what}: block at {offset} truncated')
            spans.append((offset, offset + f.block_header + cur))
            data += body
            blocks += 1
            offset = nxt
        need(len(data) >= doc_size, f'{what}: chain holds {len(data)} of {doc_size} bytes')
        need(not counted or data[doc_size:].strip(b'\0') == b'', f'{what}: padding is not zero')
        return data[:doc_size], len(data)

    toc, _ = chain(f.header.size, 'TOC')
    esize = 3 * struct.calcsize(f.idx)
    need(len(toc) % esize == 0, f'TOC size {len(toc)} is not a whole number of entries')
    if not counted:
        # nested containers written by the platform itself keep another number here
        count = len(toc) // esize
    need(len(toc) // esize == count, f'TOC has {len(toc) // esize} entries, header says {count}')
    files = []
    times = {}
    for i in range(count):
        attr, data, end = struct.unpack('<3' + f.idx[1], toc[i * esize:(i + 1) * esize])
        need(end == f.end, 'TOC entry does not end with the marker')
        head, _ = chain(attr, f'attributes of entry {i}')
        created, modified, zero = struct.unpack_from('<QQi', head)
        need(zero == 0, 'attribute reserved field')
        need(0 < created < EPOCH_MAX and 0 < modified < EPOCH_MAX, 'bad time')
        raw = head[20:]
        need(raw.endswith(b'\0\0\0\0') and len(raw) % 2 == 0, 'name is not terminated')
        name = raw[:-4].decode('utf-16-le')
        need(name and '\0' not in name, f'bad name {name!r}')
        body, room = chain(data, f'data of {name}')
        need(not counted or room >= 0x200, f'data block of {name} is smaller than the default block')
        files.append((name, body))
        times[name] = created, modified
    names = [n for n, _ in files]
    need(len(set(names)) == len(names), 'duplicate names')
    spans.sort()
    end = 0
    for a, b in spans:
        need(a >= end, f'blocks overlap at {a}')
        if strict_gaps:
            need(a == end, f'unaccounted bytes {end}..{a}')
        end = b
    return dict(bits=f.bits, files=files, times=times), base + end


def split(data, pieces):
    """pieces: list of chunk sizes (last one repeated); -> list of chunks, at least one"""
    if not pieces:
        return [data]
    out, pos, i = [], 0, 0
    while pos < len(data) or not out:
        size = pieces[min(i, len(pieces) - 1)]
        out.append(data[pos:pos + size])
        pos += size
        i += 1
    return out


def write_container(f, files, *, toc_split=(), attr_split=(), data_split=(), toc_pad=None, data_pad=0x200,
                    attr_pad=0, order='seq', junk=b'', extra_tail=False, legacy_toc=False, hexcase='lower',
                    default_block=0x200, times=(1, 1), nodata=False):
    """Lays the container out as told.
    order: seq | rev | inter - physical order of all blocks except the first TOC block, which is fixed.
    junk: bytes after the name's terminator; extra_tail: TOC chain ends with an empty block (as v8unpack writes);
    legacy_toc: TOC block header declares the document size instead of the room reserved for it.
    nodata: empty files have no data document at all.
    """
    if toc_pad is None:
        toc_pad = f.index_block
    docs = []   # [chunks, pad, doc_size]

    def add(data, pieces, pad):
        docs.append(dict(chunks=split(data, pieces), pad=pad, size=len(data)))
        return len(docs) - 1

    entry = 3 * struct.calcsize(f.idx)
    toc_doc = dict(chunks=split(b'\0' * (entry * len(files)), toc_split), pad=toc_pad, size=entry * len(files))
    if extra_tail:
        toc_doc['chunks'].append(b'')
    docs.append(toc_doc)
    entries = []
    for name, data in files:
        attr = struct.pack('<QQi', times[0], times[1], 0) + name.encode('utf-16-le') + b'\0\0' + (junk or b'\0\0')
        entries.append((add(attr, attr_split, attr_pad),
                        None if nodata and not data else add(data, data_split, data_pad)))
    # physical order
    blocks = [(d, b) for d, doc in enumerate(docs) for b in range(len(doc['chunks']))]
    head, rest = blocks[0], blocks[1:]
    if order == 'rev':
        rest.reverse()
    elif order == 'inter':
        rest = rest[1::2] + rest[0::2]
    elif order == 'byindex':
        rest.sort(key=lambda x: (x[1], x[0]))
    place = {}
    pos = f.header.size

    def room(d, b):
        # a block is filled to its capacity except the one holding the end of the document
        chunks = docs[d]['chunks']
        last = b == len(chunks) - 1 or all(not c for c in chunks[b + 1:])
        return max(len(chunks[b]), docs[d]['pad'] if last else 0)

    for d, b in [head] + rest:
        place[d, b] = pos
        pos += f.block_header + room(d, b)
    toc = b''.join(struct.pack('<3' + f.idx[1], place[a, 0], f.end if d is None else place[d, 0], f.end)
                   for a, d in entries)
    toc_doc['chunks'] = split(toc, toc_split) + ([b''] if extra_tail else [])
    out = bytearray(pos)
    out[:f.header.size] = f.header.pack(f.end, default_block, len(files), 0)
    for (d, b), at in place.items():
        doc = docs[d]
        chunk = doc['chunks'][b]
        declared = len(chunk) if (legacy_toc and d == 0) else room(d, b)
        nxt = place[d, b + 1] if b + 1 < len(doc['chunks']) else f.end
        bh = f.bh(doc['size'] if b == 0 else 0, declared, nxt)
        if hexcase == 'upper':
            bh = bh.upper()
        out[at:at + f.block_header] = bh
        out[at + f.block_header: at + f.block_header + len(chunk)] = chunk
    return bytes(out)
