"""Every payload (module, template, picture, help, ...) is in exactly one source file, byte for byte (text for text), and
what is written into that file is what the member of the built product holds, nothing else changing."""
import base64
import copy
import os

from mc import drive, fs, v8conf
from mc.core import Check

TEXTS = ['', ' ', '\n', 'a', 'a\n', '\na', 'a\n\n\nb', '\tтаб\tконец\t', '"', '""', '"";\n"', '{"#base64:', '{1,2}', '{', '\u2028x\x85y\x0cz\x0b\x1c',
         'конец\ufeff', 'a\rb', '#Область А\n#КонецОбласти\n', 'строка\n' * 3000, 'ё' * 70000, '\x00', '😀', 'в отдельном файле',
         '\t\n \n', 'ver:1', '\\n', '%s {0}', '##base64:', 'Процедура А()\n\tБ = "стр\n\t|ока ""в кавычках""";\nКонецПроцедуры',
         'а = "б" + "";\n' * 3000, '{\n{"a",1}\n}', '// v8unpack', '&НаКлиенте\nПроцедура', 'текст' + 'a' * 65530, ',', '}\n}', '[1]', '{"a": 1}']
BYTES = [b'', b'\x00', b'a', b'\r\n', b'\r', b'\n', v8conf.BOM, v8conf.BOM + b'{1,2}', b'{1,2}', b'{', b'"', bytes(range(256)) * 300,
         *[bytes(range(n)) for n in (2, 3, 47, 48, 49, 56, 57, 58, 59, 114)], b'MOXCEL\x00', b'PK\x03\x04', b'{#base64:}', b'[1]',
         '{"a": 1}'.encode(), 'текст\r\n'.encode('cp1251'), 'текст\r\n'.encode('utf-16'), b'\xff\xfe', b'a\r\nb\nc\rd', b'\x1a']
# at and above the size from which help is kept as it is
BIG = [bytes(749_900) + b'x', bytes(750_100), bytes(range(256)) * 8000]

# documented for code, documents and spreadsheets; for pictures it is the last word of the comment
EXTENSIONS = {'module': 'bsl', 'formcode': 'bsl', 'html': 'html', 'texttemplate': 'txt'}


def b64(x):
    return base64.b64encode(x).decode()


def put(desc, path, value):
    desc = copy.deepcopy(desc)
    node = desc
    for x in path[:-1]:
        node = node.setdefault(x, {}) if isinstance(node, dict) else node[x]
    node[path[-1]] = value
    return desc


def places(desc, prefix=()):
    """every payload of the object (or product) described: (path of the description, way of its content)"""
    out = []
    t = desc.get('t')
    d = v8conf.TYPES[t] if t else {'code': {n: 0 for n in ('seance', 'app', '802', 'con', 'ssn', 'obj')}}
    kind = d.get('kind')
    if kind == 'form':
        if 'obj' in desc.get('m', ['obj']):
            out.append(((*prefix, 'text', 'obj'), 'text'))
    elif kind == 'template':
        tt = desc.get('tt', 'table')
        out.append(((*prefix, 'data'), {'base64': 'b64', 'extension': 'b64', 'text': 'txt'}.get(tt, 'bytes')))
    elif kind == 'picture':
        out.append(((*prefix, 'data'), 'bytes'))
    else:
        for m in desc.get('m', ['obj'] if kind == 'command' else []):
            name = m.partition(':')[0]
            if name in d.get('code', {}):
                spec = desc.get('text', {}).get(name)
                how = 'text'
                if isinstance(spec, dict):
                    how = 'image' if 'image' in spec else spec['enc']
                out.append(((*prefix, 'text', name), how))
            elif name in ('help', 'predef', 'map', 'raw', 'rawbin', 'splash') and ':' not in m:
                out.append(((*prefix, name), 'bytes'))
    for key in ('c', 'objs'):
        for i, o in enumerate(desc.get(key, [])):
            out += places(o, (*prefix, key, i))
    return out


class P16(Check):
    id = 'P16'
    chunk = 1
    rule = 'every kind of object and product x every payload x every content from a list, written into the source file ' \
           'that holds it, built and extracted again'
    bound = {'quick': '8 contents per payload of every kind, 37 texts / 33 byte strings per way of storing',
             'thorough': 'all contents for every payload'}

    def setup(self):
        self.d = drive.Driver()

    # ------------------------------------------------------------------ spaces
    def spaces(self, tier):
        deep = tier == 'thorough'
        return [('kinds', self.kinds(deep)), ('storing', self.storing())]

    @staticmethod
    def products():
        """one product for every kind of object, with all its members"""
        for t in v8conf.TOP:
            d = v8conf.TYPES[t]
            o = dict(t=t, n='Имя')
            if d['kind'] not in ('form', 'template', 'picture'):
                o['m'] = v8conf.members(t)
            if d['kind'] == 'container':
                o['c'] = [dict(t=x, n='Вл', **({} if v8conf.TYPES[x]['kind'] in ('form', 'template', 'picture', 'command') else
                                               dict(m=v8conf.members(x)))) for x in v8conf.nested_types(t)]
            yield dict(kind='cf', objs=[o])
        for tt in v8conf.TEMPLATE_TYPES:
            yield dict(kind='cf', objs=[dict(t='CommonTemplate', n='Макет', tt=tt, cmt='картинка png'),
                                        dict(t='DataProcessor', n='Обр', m=[], c=[dict(t='Template', n='Макет', tt=tt)])])
        for ver in ('802', '803'):
            yield dict(kind='cf', ver=ver, m=['seance', 'app', '802', 'con', 'help', 'splash'])
            yield dict(kind='cf', ver=ver, m=['seance:f', 'app:f', 'con:f'])
        yield dict(kind='cfe', m=['con', 'app', 'ssn'])
        for ver in ('801', '802', '803'):
            yield dict(kind='epf', ver=ver, m=['obj', 'form1'], objs=[dict(t='Form', n='Ф'), dict(t='Form', n='О', uf=0),
                                                                     dict(t='Form', n='С', oldform=1), dict(t='Template', n='М')])
            yield dict(kind='erf', ver=ver, m=['obj:f'], objs=[dict(t='ReportForm', n='Ф', uf=0)])

    def kinds(self, deep):
        for desc in self.products():
            for path, how in places(desc):
                yield dict(desc=desc, path=path, how=how, few=not deep)

    @staticmethod
    def storing():
        """ways to store a module"""
        for t, name in ('CommonModule', 'obj'), ('Catalog', 'mgr'):
            for m in name, name + ':f':
                for enc in 'utf-8-sig', 'utf-8', 'windows-1251', 'bin', 'image':
                    if enc == 'image' and ':' in m:
                        continue
                    spec = dict(enc=enc)
                    if enc == 'bin':
                        spec['bin'] = b64(b'\x98\xff' + bytes(range(256)))
                    elif enc == 'image':
                        spec = dict(image=b64(b'\x98\xff\xfe' + bytes(range(256))))
                    desc = dict(kind='cf', objs=[dict(t=t, n='Имя', m=[m] + [x for x in v8conf.members(t) if x != name],
                                                      text={name: spec})])
                    yield dict(desc=desc, path=('objs', 0, 'text', name), how=enc if enc != 'image' else 'image', few=False)
        for tt in v8conf.TEMPLATE_TYPES:
            for cmt in ('', 'pdf', 'Прайс xlsx', 'json'):
                o = dict(t='CommonTemplate', n='Макет', tt=tt, cmt=cmt)
                yield dict(desc=dict(kind='cf', objs=[o]), path=('objs', 0, 'data'), few=False,
                           how={'base64': 'b64', 'extension': 'b64', 'text': 'txt'}.get(tt, 'bytes'))
        for cmt in ('', 'png', 'Знак gif', 'bsl'):
            yield dict(desc=dict(kind='cf', objs=[dict(t='CommonPicture', n='Картинка', cmt=cmt)]), path=('objs', 0, 'data'),
                       how='bytes', few=False)
        yield dict(desc=dict(kind='cf', objs=[dict(t='Catalog', n='Имя', m=['help', 'predef'])]), path=('objs', 0, 'help'),
                   how='big', few=False)
        for desc, path in ((dict(objs=[dict(t='Catalog', n='Имя', m=['help'])]), ('objs', 0, 'help')),
                           (dict(objs=[dict(t='CommonPicture', n='К')]), ('objs', 0, 'data')),
                           (dict(objs=[dict(t='CommonTemplate', n='М', tt='html')]), ('objs', 0, 'data')),
                           (dict(m=['help', 'splash']), ('splash',)), (dict(m=['help', 'splash']), ('help',))):
            yield dict(desc=dict(kind='cf', mark='#data:', **desc), path=path, how='bytes', few=False)
        for path in ('objs', 0, 'help'), ('objs', 0, 'predef'):
            yield dict(desc=dict(kind='cf', objs=[dict(t='Catalog', n='Имя', m=['help', 'predef'])]), path=path, how='bytes', few=False)
        for deep in '22', '1':
            yield dict(desc=dict(kind='cf', objs=[dict(t='CommonForm', n='Ф', deep=deep)]), path=('objs', 0, 'text', 'obj'),
                       how='text', few=False)
        for enc in 'utf-8', 'windows-1251':
            yield dict(desc=dict(kind='cf', objs=[dict(t='CommonForm', n='Ф', uf=0, text={'obj': dict(enc=enc)})]),
                       path=('objs', 0, 'text', 'obj'), how=enc, few=False)
        for root in range(5):                       # forms of every version of the description
            yield dict(desc=dict(kind='cf', objs=[dict(t='CommonForm', n='Ф', form=dict(root=root, elems=[]))]),
                       path=('objs', 0, 'text', 'obj'), how='text', few=False)
        for uf, old in (1, 0), (0, 0), (0, 1):
            for t in ('CommonForm',):
                yield dict(desc=dict(kind='cf', objs=[dict(t=t, n='Ф', uf=uf, oldform=old)]), path=('objs', 0, 'text', 'obj'),
                           how='text', few=False)

    @staticmethod
    def contents(how, few):
        """(value in the description, what the source file holds)"""
        if how in ('text', 'utf-8-sig', 'utf-8', 'windows-1251'):
            for t in TEXTS if not few else TEXTS[:3] + TEXTS[6:12] + TEXTS[28:30]:
                crlf = t.replace('\n', '\r\n')
                if how == 'windows-1251':
                    # a text that is utf-8 as well is taken for it
                    t, crlf = t + 'текст', crlf + 'текст'
                    try:
                        t.encode('windows-1251')
                    except UnicodeEncodeError:
                        continue
                yield (crlf if how == 'text' else dict(enc=how, text=crlf)), t
            return
        if how == 'txt':
            for enc in ('utf-8-sig', 'utf-8', 'utf-16', 'utf-32', 'utf-16-be', 'utf-32-be'):
                for t in TEXTS if not few else TEXTS[:12]:
                    if enc == 'utf-8' and t == 'конец\ufeff' or enc == 'utf-16-be' and t.startswith('\0'):   # ambiguous
                        continue
                    bom = '\ufeff' if enc.endswith('be') else ''
                    yield b64((bom + t.replace('\n', '\r\n')).encode(enc)), (bom + t).encode(enc)
            return
        for x in BIG if how == 'big' else BYTES if not few else BYTES[:4] + BYTES[7:12]:
            if how == 'bin':
                x = b'\x98' + x
                yield dict(enc='bin', bin=b64(x)), x
            elif how == 'image':
                if x:
                    yield dict(image=b64(x)), x
            elif how == 'b64':
                yield b64(x), x
            else:
                yield b64(x), x

    # ------------------------------------------------------------------ runs
    def run(self, case):
        desc, path, how = case['desc'], case['path'], case['how']
        base = v8conf.Product(desc)
        self.d.start()
        src = self.d.extract(v8conf.pack(base.tree))
        first = fs.tree(src)
        # the default contents are all different
        own = {}
        for p in base.payloads:
            data = self.source(p, base)
            found = [n for n, x in first.items() if x is not None and data(x)]
            if len(found) != 1:
                self.fail(f'the {p["what"]} {p["tag"]} is in {len(found)} source files: {found}')
            ext = EXTENSIONS.get(p['what'], '') if p.get('enc') not in ('bin', 'image') else ''
            if p.get('ext', '') not in ('', 'bsl', 'json', 'c1b64'):
                ext = p['ext']
            if not found[0].endswith(f'.{ext}' if ext else ''):
                self.fail(f'the {p["what"]} {p["tag"]} is in {found[0]}, its extension is to be {ext}')
            if found[0] in own:
                self.fail(f'two payloads in one source file {found[0]}')
            own[found[0]] = p['member']
        mine = [p for p in base.payloads if p['member'] not in [q['member'] for q in self.payloads(put(desc, path, self.other(desc, path, how)))
                                                                if q['data'] == p['data']]]
        if len(mine) != 1:
            raise AssertionError((path, [p['member'] for p in mine]))
        name = [n for n, m in own.items() if m == mine[0]['member']][0]
        # what is left of a member without the payload is in the description of the object
        describing = os.path.join(os.path.dirname(name), os.path.basename(name).split('.')[0] + '.json') if '/' in name else 'Configuration.json'
        for value, data in self.contents(how, case['few']):
            if isinstance(data, str) and data.startswith(('#', '&')) and (name.endswith('Form.obj.bsl') or desc.get('ver') in ('801', '802')):
                continue  # P20
            want = put(desc, path, value)
            prod = v8conf.Product(want)
            if how == 'b64':
                # kept as it is in the product
                data = prod.tree[mine[0]['member']]
            elif mine[0]['what'] == 'html' and len(prod.tree[mine[0]['member']]) > 1_000_000:
                self.extracted_only(desc, prod, name, data, value)
                continue
            with open(os.path.join(src, name), 'wb') as f:
                f.write(data.encode() if isinstance(data, str) else data)
            self.built(prod, self.d.build(), f'{data[:60]!r} ({len(data)}) written into {name}')
            # the product that has it from the beginning
            src2 = self.d.extract(v8conf.pack(prod.tree), src='src2')
            got = fs.tree(src2)
            x = got.pop(name, None)
            if not self.equal(x, data, how == 'txt'):
                self.fail(f'{data[:60]!r} ({len(data)}) is extracted to {name} as {x if x is None else x[:60]!r}')
            for n in sorted((set(first) | set(got)) - {name}):
                if got.get(n) != first.get(n) and not (n == describing and mine[0]['what'] in ('picture', 'html', 'splash')):
                    self.fail(f'with {data[:60]!r} in {name} the file {n} is extracted as {str(got.get(n))[:200]}, not {str(first.get(n))[:200]}')
            self.built(prod, self.d.build(src='src2'), f'{data[:60]!r} ({len(data)}) extracted to {name} and built')
            self.count(executions=3, transitions=1)
        # nothing left in the file
        if how in ('text', 'utf-8-sig', 'utf-8'):
            with open(os.path.join(src, name), 'wb') as f:
                f.write(b'')
            value = '' if how == 'text' else dict(enc=how, text='')
            self.built(v8conf.Product(put(desc, path, value)), self.d.build(), f'{name} emptied')
            os.remove(os.path.join(src, name))
            self.built(v8conf.Product(put(desc, path, value)), self.d.build(), f'{name} removed')
            # as an editor of another system saves it
            for text in ('а', 'первая\nвторая\n'):
                for how2 in (text.encode('utf-8-sig'), text.replace('\n', '\r\n').encode(),
                             text.replace('\n', '\r\n').encode('utf-8-sig')):
                    with open(os.path.join(src, name), 'wb') as f:
                        f.write(how2)
                    crlf = text.replace('\n', '\r\n')
                    self.built(v8conf.Product(put(desc, path, crlf if how == 'text' else dict(enc=how, text=crlf))),
                               self.d.build(), f'{how2!r} written into {name}')
            self.count(executions=8)

    def extracted_only(self, desc, prod, name, data, value):
        src2 = self.d.extract(v8conf.pack(prod.tree), src='src3')
        self.built(prod, self.d.build(src='src3'), f'{len(data)} bytes extracted and built')
        self.count(executions=2)

    def built(self, prod, out, what):
        diffs = prod.compare(v8conf.unpack(out))
        if diffs:
            self.fail(f'{what}: ' + '; '.join(diffs[:3]))

    @staticmethod
    def payloads(desc):
        return v8conf.Product(desc).payloads

    @staticmethod
    def other(desc, path, how):
        if how in ('text', 'utf-8-sig', 'utf-8', 'windows-1251'):
            return 'Другой текст' if how == 'text' else dict(enc=how, text='Другой текст')
        if how == 'bin':
            return dict(enc='bin', bin=b64(b'\x98other'))
        if how == 'image':
            return dict(image=b64(b'other'))
        return b64('другое'.encode())

    @staticmethod
    def equal(x, data, text=False):
        if data in ('', b''):
            return not x or x == v8conf.BOM
        if x is None:
            return False
        if isinstance(data, str):
            return x.decode('utf-8-sig').replace('\r\n', '\n') == data.replace('\r', '\n')
        return x == data or text and v8conf.canon_text(x) == v8conf.canon_text(data)

    @staticmethod
    def source(p, base):
        data = p['data']
        if p['what'] == 'b64template':
            raw = base.tree[p['member']]
            return lambda x: x == raw
        if p['what'] in ('module', 'formcode') and isinstance(data, str):
            text = data.replace('\r\n', '\n')
            return lambda x: x.decode('utf-8', 'replace').removeprefix('\ufeff').replace('\r\n', '\n') == text
        if p['what'] == 'texttemplate':
            return lambda x: v8conf.canon_text(x) == v8conf.canon_text(data)
        return lambda x: x == data


CHECK = P16()
