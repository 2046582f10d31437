"""Generator of synthetic 1C products (what is inside the container after inflating), written from the layouts of
genuine 1C files (fixtures/) and the platform's metadata kinds; shares no code with the code under test.

A product is described by plain JSON and turned into {member path: bytes} plus, per member, how two versions of it
compare (brace tree / text / raw) and, per payload (module, template, picture, help, ...), where it lives.

  product: {kind: 'cf'|'cfe'|'epf'|'erf', ver: '801'|'802'|'803', m: [members], objs: [object...], ...}
  object:  {t: metadata type, n: name, m: [members], c: [nested objects], z: [types listed with no objects], ...}

Members of an object: names of its modules ('obj', 'mgr', ...; suffix ':f' = stored as a bare file, ':d' or nothing =
directory with info/text), 'help', 'predef', 'info', 'map', 'raw', 'data'.
"""
import base64
import hashlib
import os
import uuid
import zlib

from . import brace, cfmt, forms

NS = uuid.UUID('11111111-2222-3333-4444-555555555555')
BOM = b'\xef\xbb\xbf'

TYPE_UUID = {}


def _types():
    import re
    # the platform's identifiers of metadata kinds (own copy: mc/v8types.txt)
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'v8types.txt')
    with open(path, encoding='utf-8') as f:
        for line in f:
            m = re.match(r'(\w+) ([0-9a-f-]{36})', line)
            if m:
                TYPE_UUID[m.group(1)] = m.group(2)


_types()

GROUPS = {
    'General': '9cd510cd-abfc-11d4-9434-004095e12fc7',
    'Main': '9fcd25a0-4822-11d4-9414-008048da11f9',
    'Accounting': 'e3687481-0a87-462c-a166-9f34594f9bba',
    'Calculation': '9de14907-ec23-4a07-96f0-85521cb6b53b',
    'DocFlow': '51f2d5d8-ea4d-4064-8892-82951750031e',
    'DataSource': 'e68182ea-4237-4383-967f-90c1e3370bc7',
    'Integration': 'fb282519-d103-4dd3-bc12-cb271d631dfc',
}


def C(path, code=None, help=None, predef=None, form=None, cmd=None, cmdp=0, tmpl=True, sub=(), **kw):
    """an object with a table of contents"""
    return dict(kind='container', path=path, code=code or {}, help=help, predef=predef, form=form, cmd=cmd, cmdp=cmdp,
                tmpl=tmpl, sub=list(sub), **kw)


def S(path, code=None, help=None, **kw):
    return dict(kind='simple', path=path, code=code or {}, help=help, predef=None, form=None, cmd=None, tmpl=False,
                sub=[], **kw)


TYPES = {
    'AccountingRegister': C((16, 1), {'obj': '6', 'mgr': '7'}, '5', form='AccountingRegisterForm',
                            cmd='AccountingRegisterCommand', cmdp=1, ver='22', group='Accounting'),
    'AccumulationRegister': C((13, 1), {'mgr': '2', 'obj': '1'}, '0', '3', 'AccumulationRegisterForm',
                              'AccumulationRegisterCommand', 1, group='Main'),
    'Bot': S((1,), {'obj': '1'}, group='General'),
    'BusinessProcess': C((1,), {'obj': '6', 'mgr': '8'}, '5', None, 'BusinessProcessForm', 'BusinessProcessCommand',
                         map='7', group='DocFlow'),
    'CalculationRegister': C((15, 1), {'obj': '1', 'mgr': '2'}, '0', None, 'CalculationRegisterForm',
                             'CalculationRegisterCommand', 1, sub=['CalculationRegisterRecalculations'],
                             group='Calculation'),
    'CalculationRegisterRecalculations': C((7, 1), {'obj': '0'}, tmpl=False, top=False),
    'Catalog': C((9, 1), {'mgr': '3', 'obj': '0'}, '1', '1c', 'CatalogForm', 'CatalogCommand', group='Main'),
    'ChartOfAccounts': C((15, 1), {'obj': '14', 'mgr': '15'}, '5', '9', 'ChartOfAccountsForm',
                         'ChartOfAccountsCommand', group='Accounting'),
    'ChartOfCalculationTypes': C((1, 1), {'obj': '0', 'mgr': '3'}, '1', '2', 'ChartOfCalculationTypesForm',
                                 'ChartOfCalculationTypesCommand', group='Calculation'),
    'ChartOfCharacteristicType': C((13, 1), {'mgr': '16', 'obj': '15'}, '5', '7', 'ChartOfCharacteristicTypeForm',
                                   'ChartOfCharacteristicTypeCommand', group='Main'),
    'CommandGroup': S((6,), group='General'),
    'CommonAttribute': S((1, 1, 1), group='General'),
    'CommonCommand': S((1, 2, 9), {'obj': '2'}, '1', group='General'),
    'CommonForm': dict(kind='form', style=1, group='General'),
    'CommonModule': S((1,), {'obj': '0'}, group='General'),
    'CommonPicture': dict(kind='picture', path=(1,), group='General'),
    'CommonTemplate': dict(kind='template', path=(1,), ver='4', type_at=2, group='General'),
    'Constant': S((1, 1, 1), {'mgr': '1', 'obj': '0'}, group='Main'),
    'DataProcessor': C((3, 1), {'mgr': '2', 'obj': '0'}, '1', None, 'Form', 'DataProcessorCommand', 1, size=12,
                       group='Main'),
    'DefinedType': S((3,), group='General'),
    'Document': C((9, 1), {'obj': '0', 'mgr': '2'}, '1', None, 'DocumentForm', 'DocumentCommand', group='Main'),
    'DocumentJournal': C((3, 1), {'mgr': '1'}, '0', None, 'DocumentJournalForm', 'DocumentJournalCommand', 1,
                         group='Main'),
    'DocumentNumerators': S((1,), group='Main'),
    'Enum': C((5, 1), {'obj': '0'}, None, None, 'EnumForm', 'EnumCommand', group='Main'),
    'EventSubscription': S((1,), raw='0', group='General'),
    'ExchangePlan': C((12,), {'obj': '2', 'mgr': '3'}, '0', None, 'ExchangePlanForm', 'ExchangePlanCommand',
                      info='1', group='Main'),
    'ExternalDataSource': C((1, 1), {'obj': '0'}, sub=['ExternalDataSourceTable', 'ExternalDataSourceCube'],
                            tmpl=False, group='DataSource'),
    'ExternalDataSourceCube': C((1, 1), {'obj': '2', 'mgr': '1'}, None, None, 'ExternalDataSourceCubeForm',
                                'ExternalDataSourceCubeCommand', top=False),
    'ExternalDataSourceTable': C((1, 1), {'obj': '0'}, None, None, 'ExternalDataSourceTableForm',
                                 'ExternalDataSourceTableCommand', top=False),
    'FilterCriterion': C((5, 1), {'obj': '0'}, None, None, 'FilterCriterionForm', 'FilterCriterionCommand',
                         group='Main'),
    'FunctionalOption': S((1,), group='General'),
    'FunctionalOptionsParameter': S((1,), group='General'),
    'HTTPService': C((2,), {'obj': '0'}, tmpl=False, group='General'),
    'InformationRegister': C((15, 1), {'mgr': '2', 'obj': '1'}, '0', None, 'InformationRegisterForm',
                             'InformationRegisterCommand', 1, group='Main'),
    'IntegrationService': C((1,), {'obj': '0'}, tmpl=False, group='Integration'),
    'Interface': S((2,), raw='0', group='General'),
    'Language': S((1,), group='General'),
    'Report': C((3, 1), {'mgr': '2', 'obj': '0'}, '1', None, 'ReportForm', 'ReportCommand', 1, group='Main'),
    'Role': S((1,), raw='0', group='General'),
    'ScheduledJob': S((1,), raw='0', group='General'),
    'Sequences': C((7, 1), {'obj': '0'}, tmpl=False, group='Main'),
    'SessionParameter': S((1, 1), group='General'),
    'SettingsStorage': C((1, 1), {'mgr': '8'}, None, None, 'SettingsStorageForm', None, group='General'),
    'Style': S((1,), raw='0', group='General'),
    'StyleItem': S((3,), group='General'),
    'Subsystem': C((1,), {}, '0', info='1', sub=['Subsystem'], tmpl=False, group='General'),
    'Task': C((1,), {'obj': '6', 'mgr': '7'}, '5', None, 'TaskForm', 'TaskCommand', group='DocFlow'),
    'WebService': C((2,), {'obj': '0'}, tmpl=False, group='General'),
    'WSReference': S((2,), wsdir='0', group='General'),
    'XDTOPackage': S((1,), rawbin='0', group='General'),
}
FORM_STYLE = {}
for _t, _d in list(TYPES.items()):
    if _d.get('form'):
        TYPES.setdefault(_d['form'], dict(kind='form', top=False))
for _t in ('AccountingRegisterForm', 'BusinessProcessForm', 'ChartOfAccountsForm', 'ChartOfCharacteristicTypeForm',
           'ExternalDataSourceCubeForm', 'ExternalDataSourceTableForm', 'TaskForm'):
    TYPES[_t]['style'] = 0
for _t in ('AccumulationRegisterForm', 'CalculationRegisterForm', 'InformationRegisterForm', 'CatalogForm',
           'ChartOfCalculationTypesForm', 'DocumentForm', 'DocumentJournalForm', 'EnumForm', 'ExchangePlanForm',
           'FilterCriterionForm', 'SettingsStorageForm', 'CommonForm'):
    TYPES[_t]['style'] = 1
for _t in ('Form', 'ReportForm'):
    TYPES[_t]['style'] = 'x'
for _t, _d in list(TYPES.items()):
    if _d.get('cmd'):
        TYPES[_d['cmd']] = dict(kind='command', short=bool(_d['cmdp']), code={'obj': '2'}, top=False)
TYPES['Template'] = dict(kind='template', path=(2,), ver='2', type_at=1, top=False)

TOP = [t for t, d in TYPES.items() if d.get('top', True)]
NESTED = [t for t, d in TYPES.items() if not d.get('top', True)]
TEMPLATE_TYPES = {'table': '0', 'base64': '1', 'active_doc': '2', 'html': '3', 'text': '4', 'geographic': '5',
                  'scheme': '6', 'design': '7', 'graphic_scheme': '8', 'extension': '9'}


def uid(tag):
    return str(uuid.uuid5(NS, tag))


def q(s):
    return '"' + s + '"'


def put_at(obj, path, value):
    """a nested list with the value at the given path, everything else told apart by its content"""
    node = obj
    for depth, i in enumerate(path):
        while len(node) <= i:
            node.append(str(len(node) + 100 * depth))
        if depth == len(path) - 1:
            node[i] = value
        else:
            if not isinstance(node[i], list):
                node[i] = [str(depth)]
            node = node[i]


def nested_types(t):
    """metadata kinds an object of this kind can hold"""
    d = TYPES[t]
    out = []
    if d.get('form'):
        out.append(d['form'])
    if d.get('tmpl'):
        out.append('Template')
    if d.get('cmd'):
        out.append(d['cmd'])
    return out + list(d.get('sub', []))


def members(t):
    """optional members of an object of this kind"""
    d = TYPES[t]
    out = list(d.get('code', {}))
    for k in ('help', 'predef', 'map', 'info', 'raw', 'rawbin', 'wsdir'):
        if d.get(k) is not None:
            out.append(k)
    return out


class Product:
    def __init__(self, desc):
        self.desc = desc
        self.mark = desc.get('mark', '#base64:')     # how contents inside brace files are marked
        self.tree = {}
        self.kinds = {}
        self.payloads = []
        self.objects = []  # (path of names, type, uuid)
        self.seq = 0
        build = {'cf': self.cf, 'cfe': self.cfe, 'epf': self.edp, 'erf': self.edp}[desc['kind']]
        build()
        self.pairs = None

    # -- members ---------------------------------------------------------------------------------------------
    def raw(self, name, data, kind='raw'):
        assert name not in self.tree, name
        self.tree[name] = data
        self.kinds[name] = kind

    def brace(self, name, roots, kind='brace', bom=True):
        # line ends as 1C writes them
        self.raw(name, (BOM if bom else b'') + brace.write(roots, '\r\n', short_nl=False).encode('utf-8'), kind)

    def payload(self, what, member, data, **kw):
        self.payloads.append(dict(what=what, member=member, data=data, **kw))

    def text_of(self, tag, spec):
        if spec is not None:
            return spec
        # the repeated directive-free text is unique per module
        return f'// {tag}\r\nПроцедура П_{uid(tag)[:8]}()\r\n\tСообщить("Привет ""мир""; {{0}}");\r\nКонецПроцедуры\r\n'

    def module(self, tag, member, how='d', spec=None, comment=False):
        enc = 'utf-8-sig'
        info = [['3', '1', '0', '""', '0']]
        if isinstance(spec, dict):
            text, enc = spec.get('text'), spec.get('enc', enc)
            image = spec.get('image')
        else:
            text, image = spec, None
        text = self.text_of(tag, text)
        if image is not None:
            data = base64.b64decode(image)
            self.brace(f'{member}/info', info)
            self.raw(f'{member}/image', data)
            self.payload('image', f'{member}/image', data, tag=tag)
            return
        if enc == 'bin':
            data = base64.b64decode(spec['bin'])
        else:
            data = text.encode(enc)
        name = member
        if how == 'd':
            self.brace(f'{member}/info', info)
            name = f'{member}/text'
        self.raw(name, data, 'raw' if enc == 'bin' else 'text')
        self.payload('module', name, text if enc != 'bin' else data, tag=tag, enc=enc)

    def name_header(self, tag, desc):
        u = desc.get('u') or uid(tag)
        if self.desc.get('upper'):      # identifiers in capital letters
            u = u.upper()
        syn = desc.get('syn', {'ru': 'Синоним ' + tag})
        loc = [str(len(syn))]
        for k, v in syn.items():
            loc += [q(k), q(v)]
        borrowed = desc.get('borrowed')
        tail = ['1', '2', uid(tag + '/base'), '0'] if borrowed else ['0', '0', '00000000-0000-0000-0000-000000000000', '0']
        head = ['3', ['1', '0', u], q(desc['n']), loc, q(desc.get('cmt', ''))]
        if not desc.get('short'):
            head += tail
        return u, head

    # -- objects ---------------------------------------------------------------------------------------------
    def toc(self, tag, desc, container_uuid):
        """table of contents of the nested objects, in order of first appearance of the types"""
        order = list(desc.get('order', []))
        for c in desc.get('c', []):
            if c['t'] not in order:
                order.append(c['t'])
        for t in desc.get('z', []):
            if t not in order:
                order.append(t)
        out = [str(len(order) + len(desc.get('unk', [])))]
        for t in order:
            group = [TYPE_UUID.get(t, t), '0']
            for c in desc.get('c', []):
                if c['t'] == t:
                    group.append(self.obj(c.get('k') or f'{tag}/{t}/{c["n"]}', c, container_uuid))
            group[1] = str(len(group) - 2)
            out.append(group)
        for i, unk in enumerate(desc.get('unk', [])):
            # kinds of nested things that stay inside the object: attributes, tabular sections, ...
            u = uid(f'{tag}/unk{i}') if unk != 'FormAttribute' and unk != 'TabularSectionAttribute' else TYPE_UUID[unk]
            out.append([u, '2', [['0', [q(f'Реквизит{i}')], uid(f'{tag}/attr{i}')], '0'],
                        [['0', [q('Реквизит2')], uid(f'{tag}/attr2{i}')], '0']])
        return out

    def obj(self, tag, desc, parent_container=None):
        t = desc['t']
        d = TYPES[t]
        u, head = self.name_header(tag, desc)
        self.objects.append((tag, t, u, desc['n']))
        kind = d['kind']
        if kind in ('container', 'simple'):
            ver = desc.get('ver', d.get('ver', '7'))
            body = [ver]
            path = d['path']
            if t == 'AccountingRegister' and int(ver) <= 21:
                path = (15, 1)
            put_at(body, path, head)
            while len(body) < d.get('size', 0) or len(body) < path[0] + 3:
                body.append(uid(f'{tag}/slot{len(body)}'))
            if t == 'Catalog' or t == 'Document' or t == 'DataProcessor':
                for i in (1, 2, 7, 8):
                    if i != path[0]:
                        body[i] = uid(f'{tag}/slot{i}' + desc.get('own', ''))
            root = ['1', body]
            if kind == 'container':
                container = body[1] if t in ('Catalog', 'Document', 'DataProcessor') else None
                root += self.toc(tag, desc, container)
            else:
                root += ['0']
            self.brace(u, [root])
            self.object_members(tag, desc, d, u)
            return u
        if kind == 'command':
            icon = ['4', '0', ['0'], '""', '-1', '-1', '1', '0', '""']
            inner = ['1', ['2', u, '078a6af8-d22c-4248-9c33-7e90075a3d2c'],
                     ['9', icon, '3', ['0'], '1', ['0', '0', '0'], '0', ['1', uid(tag + ':grp')], ['"Pattern"'], head,
                      '0', '0', '0']]
            cmd = [['0', inner if d['short'] else ['0', '0', '0', inner]], '0']
            for m in desc.get('m', ['obj']):
                name, _, how = m.partition(':')
                self.module(f'{tag}:{name}', f'{u}.2', how or 'd', desc.get('text', {}).get(name))
            return cmd
        if kind == 'form':
            return self.form(tag, desc, d, u, head, parent_container)
        if kind == 'template':
            return self.template(tag, desc, d, u, head)
        if kind == 'picture':
            return self.picture(tag, desc, d, u, head)
        raise AssertionError(kind)

    def object_members(self, tag, desc, d, u):
        o = desc
        for m in desc.get('m', []):
            name, _, how = m.partition(':')
            if name in d['code']:
                self.module(f'{tag}:{name}', f'{u}.{d["code"][name]}', how or 'd', o.get('text', {}).get(name))
            elif name == 'help':
                self.html(f'{tag}:help', f'{u}.{d["help"]}', how or 'full', o.get('help'))
            elif name == 'predef':
                self.blob('predef', tag, f'{u}.{d["predef"]}', o.get('predef'))
            elif name == 'map':
                self.blob('map', tag, f'{u}.{d["map"]}', o.get('map'))
            elif name == 'info':
                self.brace(f'{u}.{d["info"]}', [['1', [uid(tag + ':info'), '0'], q('инфо ""' + tag)]])
            elif name == 'raw':
                self.blob('raw', tag, f'{u}.{d["raw"]}', o.get('raw'),
                          default=BOM + brace.write([['0', [q(uid(tag + ':raw')), '1']]], '\r\n').encode())
            elif name == 'rawbin':
                self.blob('rawbin', tag, f'{u}.{d["rawbin"]}', o.get('rawbin'))
            elif name == 'wsdir':
                for f in o.get('wsfiles', ['1', '2']):
                    self.blob('ws', tag + f, f'{u}.{d["wsdir"]}/{f}', None)
            else:
                raise AssertionError(m)

    def blob(self, what, tag, member, spec, default=None):
        if spec is not None:
            data = base64.b64decode(spec)
        else:
            data = default if default is not None else b'\x00\x01' + f'{what} {tag}'.encode() + bytes(range(256)) + b'\r\n\r'
        self.raw(member, data)
        self.payload(what, member, data, tag=tag)

    def html(self, tag, member, how='full', spec=None):
        data = base64.b64decode(spec) if spec is not None else f'<html>{tag}</html>\r\n'.encode()
        if how == 'full':
            self.brace(member, [['5', '1', q('ru'), [self.mark + base64.b64encode(data).decode()], '0', '1']])
            self.payload('html', member, data, tag=tag)
        elif how == 'empty':
            self.brace(member, [['5', '0', '0', [''], '0']])
        else:
            self.brace(member, [['5']])

    def form(self, tag, desc, d, u, head, parent_container):
        uf = desc.get('uf', 1) and not desc.get('oldform')
        ver = desc.get('ver', '13')
        head2 = [ver, head, '1', '1' if uf else '0']
        if desc.get('oldform'):
            head2 = [ver, head, '1']
        style = d['style']
        if style == 0:
            data = [['1', head2, ['0', '7']]]
        elif style == 1 or not desc.get('wrap'):
            data = [['1', ['0', head2, ['0', '7']], '0']]
        else:
            data = [['1', ['1', ['0', head2, ['0', '7']]], '0']]
        self.brace(u, data)
        mm = desc.get('m', ['obj'])
        if uf:
            if 'none' not in mm:
                code = self.text_of(tag + ':obj', desc.get('text', {}).get('obj')) if 'obj' in mm else ''
                code = code.replace('\r\n', '\n')  # the writer of the brace file makes the line ends
                body = desc.get('form') or uf_form(tag)
                if isinstance(body, dict):
                    body = forms.Managed(body, parent_container).raw
                body = _deep(body)
                if desc.get('deep'):      # older forms keep the module in the last of their nested objects
                    body = [['1', [q(tag), '7'], ['0', [desc['deep'], '1', '2', '3', '""', '5', '6', '7', '8', '9', '0', '0']]]]
                    body[0][2][1][-8] = q(code.replace('"', '""'))
                elif 'oldest' in desc:    # of those it is not known where it is
                    body = [['1', [q(tag), '7'], ['49', q(code.replace('"', '""')), '0']]]
                else:
                    body[0][2] = q(code.replace('"', '""'))
                self.brace(f'{u}.0', body)
                if code and 'oldest' not in desc:
                    self.payload('formcode', f'{u}.0', code, tag=tag + ':obj')
        else:
            if 'none' not in mm:
                body = desc.get('form')
                if isinstance(body, dict):
                    body = forms.Ordinary(body)
                if isinstance(body, forms.Ordinary):
                    body = body.raw
                self.brace(f'{u}.0/form', body or [['19', [q('ОФ ' + tag), uid(tag + ':of')], ['0']]])
                text, enc = desc.get('text', {}).get('obj'), 'utf-8-sig'
                if isinstance(text, dict):
                    text, enc = text.get('text'), text['enc']
                text = self.text_of(tag + ':obj', text) if 'obj' in mm else ''
                self.raw(f'{u}.0/module', text.encode(enc), 'text')
                if text:
                    self.payload('module', f'{u}.0/module', text, tag=tag + ':obj', enc=enc)
        if 'second' in mm:
            self.brace(f'{u}.1', [['5', [q('форма1 ' + tag)], '0']])
        return u

    def template(self, tag, desc, d, u, head):
        tt = desc.get('tt', 'table')
        body = [d['ver']]
        put_at(body, d['path'], head)
        if d['type_at'] >= len(body):
            put_at(body, (d['type_at'],), TEMPLATE_TYPES[tt])
        body[d['type_at']] = TEMPLATE_TYPES[tt]
        self.brace(u, [['1', body, '0']])
        if 'data' not in desc.get('m', ['data']):
            return u
        name = f'{u}.0'
        spec = desc.get('data')
        data = base64.b64decode(spec) if spec is not None else None
        if tt in ('base64', 'extension'):
            if data is None:
                data = f'двоичные {tag} '.encode() + bytes(range(256)) * 3
            b64 = base64.b64encode(data).decode()
            self.raw(name, BOM + b'{1,\r\n{' + b'#base64:' + b64lines(b64) + b'}\r\n}',
                     'b64')
            if data:
                self.payload('b64template', name, data, tag=tag)
        elif tt == 'html':
            self.html(tag, name, desc.get('html', 'full'), spec)
        elif tt == 'text':
            if data is None:
                data = BOM + f'текст {tag}\r\nстрока\r\n'.encode()
            self.raw(name, data, 'text')
            self.payload('texttemplate', name, data, tag=tag)
        else:
            if data is None:
                data = b'MOXCEL\x00' + tag.encode() + bytes(range(256)) + b'\r\n{8,1,12}\n'
            self.raw(name, data)
            self.payload('template', name, data, tag=tag, ext='mxl' if tt == 'table' else '')
        return u

    def picture(self, tag, desc, d, u, head):
        body = ['2']
        put_at(body, d['path'], head)
        self.brace(u, [['1', body, '0']])
        if 'data' in desc.get('m', ['data']):
            spec = desc.get('data')
            data = base64.b64decode(spec) if spec is not None else b'\x89PNG\r\n\x1a\n' + tag.encode() + bytes(range(256))
            b64 = base64.b64encode(data).decode()
            self.raw(f'{u}.0', BOM + b'{4,\r\n{0,0},\r\n{\r\n{' + self.mark.encode() + (b64lines(b64) if self.mark == '#base64:' else b64.encode()) + b'}\r\n}\r\n}',
                     'b64')
            if data:
                self.payload('picture', f'{u}.0', data, tag=tag, ext=(desc.get('cmt', '').split() or [''])[-1])
        return u

    # -- products --------------------------------------------------------------------------------------------
    def cf(self):
        desc = self.desc
        ver = desc.get('ver', '803')
        root_uuid = uid('cf-file')
        u, head = self.name_header('cf', dict(n=desc.get('n', 'Конфигурация'), cmt=desc.get('cmt', '')))
        inner = [str(i) for i in range(60)]
        inner[0], inner[1], inner[15], inner[26] = '63', ['0', head], q(desc.get('pv', '1.0.1')), desc.get('compat', '80316')
        inner[42], inner[43] = q('преф'), '80317'
        groups = self.groups(desc, inner)
        data = [['2', [root_uuid], str(len(groups)), *groups]]
        self.brace(root_uuid, data)
        self.brace('root', [['2', root_uuid, '']])
        fv = desc.get('fv', '216')
        self.brace('version', [[[fv, '0', [desc.get('pf', '80316'), '0']]]] if ver == '803' or desc.get('pf') else [[[fv, '0']]])
        code = {'seance': '7', 'app': '6', '802': '0', 'con': '5'}
        for m in desc.get('m', []):
            name, _, how = m.partition(':')
            if name in code:
                self.module(f'cf:{name}', f'{u}.{code[name]}', how or 'd', desc.get('text', {}).get(name))
            elif name == 'help':
                self.html('cf:help', f'{u}.3', how or 'full', desc.get('help'))
            elif name == 'splash':
                data = b'\x89PNG\r\n\x1a\n' + bytes(range(256))
                if desc.get('splash') is not None:
                    data = base64.b64decode(desc['splash'])
                if how == 'empty':
                    self.brace(f'{u}.2', [['4', ['0'], [['']]]])
                else:
                    self.brace(f'{u}.2', [['4', ['0'], [[self.mark + base64.b64encode(data).decode()]]]])
                    self.payload('splash', f'{u}.2', data, tag='cf:splash')
            elif name in ('4', '8', '9', '10', 'a', 'b', 'c', 'd', 'e', 'f'):
                self.brace(f'{u}.{name}', [['1', [q(f'часть {name}'), uid('cf' + name)]]])
            else:
                raise AssertionError(m)
        self.versions()

    def groups(self, desc, inner):
        used = ['General']
        for o in desc.get('objs', []):
            g = TYPES[o['t']]['group']
            if g not in used:
                used.append(g)
        for g in desc.get('zg', []):
            if g not in used:
                used.append(g)
        groups = []
        for g in used:
            sub = dict(c=[o for o in desc.get('objs', []) if TYPES[o['t']]['group'] == g],
                       order=[t for t in desc.get('order', []) if TYPES[t]['group'] == g],
                       z=desc.get('z', {}).get(g, []), unk=desc.get('unk', {}).get(g, []))
            toc = self.toc('cf', sub, None)
            if g == 'General':
                groups.append([GROUPS[g], ['1', inner, *toc]])
            elif g in desc.get('g6', []):
                groups.append([GROUPS[g], ['6', ['1', ['0', uid('g' + g)], *toc]]])
            else:
                groups.append([GROUPS[g], ['1', ['0', uid('g' + g)], *toc]])
        return groups

    def cfe(self):
        desc = self.desc
        root_uuid = uid('cfe-file')
        u, head = self.name_header('cf', dict(n=desc.get('n', 'Расширение'), cmt=desc.get('cmt', '')))
        inner = [str(i) for i in range(60)]
        inner[0], inner[1], inner[15], inner[26] = '63', ['0', head], q(desc.get('pv', '1.0.1')), '80310'
        inner[42], inner[43] = q(desc.get('pref', 'Расш1_')), desc.get('compat', '80316')
        groups = self.groups(desc, inner)
        self.brace(root_uuid, [['2', [root_uuid], str(len(groups)), *groups]])
        code = {'con': '5', 'app': '6', 'ssn': '7'}
        for m in desc.get('m', []):
            name, _, how = m.partition(':')
            if name in code:
                self.module(f'cf:{name}', f'{u}.{code[name]}', how or 'd', desc.get('text', {}).get(name))
            elif name in ('8', '9', 'a'):
                self.brace(f'{u}.{name}', [['1', [q(f'часть {name}'), uid('cf' + name)]]])
            else:
                raise AssertionError(m)
        entries = [str(len(tops(self.tree)))]
        for name in tops(self.tree):
            entries += [q(name), digest(self.tree, name)]
        self.brace('configinfo', [['0', [desc.get('fv', '216'), '0', [desc.get('pf', '80316'), '0']]],
                                  ['2', root_uuid, base64.b64encode(b'0' * 64).decode()], entries], 'configinfo')

    def edp(self):
        desc = self.desc
        ver = desc.get('ver', '803')
        root_uuid = uid('edp-file')
        u, head = self.name_header('edp', dict(n=desc.get('n', 'Обработка'), cmt=desc.get('cmt', '')))
        kind = 'ExternalDataProcessor' if desc['kind'] == 'epf' else 'ExternalReport'
        container = uid('edp-container' + self.desc.get('own', ''))
        inner = ['3', container, uid('edp-2'), ['0', head], uid('edp-4'), uid('edp-5'), '0', q('')]
        toc = self.toc('edp', dict(c=desc.get('objs', []), z=desc.get('z', []), unk=desc.get('unk', []),
                                    order=desc.get('order', [])), container)
        self.brace(root_uuid, [['1', [root_uuid], '1', [TYPE_UUID[kind], ['1', inner, *toc]], '0']])
        self.brace('root', [['2', root_uuid, '']])
        fv = desc.get('fv', '216')
        version = {'801': [[['106', '0']]], '802': [[[fv, '0']]], '803': [[[fv, '0', [desc.get('pf', '80316'), '0']]]]}[ver]
        if ver == '802' and desc.get('pf'):
            version = [[[fv, '0', [desc['pf'], '0']]]]
        self.brace('version', version)
        self.brace('copyinfo', [['4', ['0'], ['0'], ['0'], ['0', '0'], ['0']]])
        for m in desc.get('m', []):
            name, _, how = m.partition(':')
            if name == 'obj':
                self.module('edp:obj', f'{u}.0', how or 'd', desc.get('text', {}).get('obj'))
            elif name == 'form1':
                self.brace(f'{u}.1', [['7', [q('форма1'), uid('form1')]]])
            else:
                raise AssertionError(m)
        self.versions()

    def versions(self):
        names = tops(self.tree) + ['versions']
        out = ['1', str(len(names) + 1), '""', uid('v')]
        for n in sorted(names):
            out += [q(n), uid('v' + n)]
        self.brace('versions', [out], 'versions')

    # -- comparing -------------------------------------------------------------------------------------------
    def compare(self, other, ignore=()):
        """differences of another product tree from this one: list of texts"""
        out = []
        for name in sorted(set(self.tree) | set(other)):
            if name in ignore:
                continue
            if name not in other:
                out.append(f'member {name} is lost')
            elif name not in self.tree:
                out.append(f'member {name} appeared')
            else:
                kind = self.kinds[name]
                if kind == 'versions':      # P25
                    continue
                if kind == 'configinfo':    # the list of members and checksums: P25
                    a, b = (read_brace(x)[:2] for x in (self.tree[name], other[name]))
                    if a != b:
                        out.append(f'member {name} begins with {b}, not {a}')
                    continue
                text = same(kind, self.tree[name], other[name])
                if text:
                    out.append(f'member {name} ({kind}) {text}')
        return out


def _deep(x):
    return [_deep(y) for y in x] if isinstance(x, list) else x


def b64lines(b64, n=76):
    return b'\r\r\n'.join(b64[i:i + n].encode() for i in range(0, len(b64), n))


def tops(tree):
    return sorted({n.split('/')[0] for n in tree})


def digest(tree, name):
    return base64.b64encode(hashlib.sha1(tree.get(name, b'')).digest()).decode()


def read_brace(data):
    try:
        text = data.decode('utf-8-sig')
    except UnicodeDecodeError:
        text = data.decode('windows-1251')
    return brace.parse(text)


def canon_text(data):
    try:
        text = data.decode('utf-32' if data[:4] in (b'\xff\xfe\0\0', b'\0\0\xfe\xff') else 'utf-16' if data[:2] in (b'\xff\xfe', b'\xfe\xff') else 'utf-8-sig')
        return text.replace('\r\n', '\n').replace('\r', '\n')
    except UnicodeDecodeError:
        return data.replace(b'\r\n', b'\n').replace(b'\r', b'\n')


def canon_b64(data):
    return b''.join(data.removeprefix(BOM).split())


def same(kind, a, b):
    if a == b:
        return ''
    if kind == 'brace':
        try:
            x, y = brace.norm(read_brace(a)), brace.norm(read_brace(b))
        except Exception as err:
            return f'is not readable: {err}'
        return '' if x == y else 'differs: ' + first_diff(x, y)
    if kind == 'text':
        x, y = canon_text(a), canon_text(b)
        return '' if x == y else f'differs: {x[:200]!r} -> {y[:200]!r}'
    if kind == 'b64':
        x, y = canon_b64(a), canon_b64(b)
        return '' if x == y else f'differs: {x[:200]!r} -> {y[:200]!r}'
    return f'differs: {a[:60]!r}({len(a)}) -> {b[:60]!r}({len(b)})'


def first_diff(x, y, path=''):
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return f'at {path or "root"}: {len(x)} elements -> {len(y)}: {str(x)[:150]} -> {str(y)[:150]}'
        for i, (a, b) in enumerate(zip(x, y)):
            if a != b:
                return first_diff(a, b, f'{path}[{i}]')
    return f'at {path}: {str(x)[:150]} -> {str(y)[:150]}'


def uf_form(tag):
    """the smallest managed form of the platform: no elements, no properties"""
    return [['4', ['49', '0', '0', '0', '0', '1', '0', '0', '00000000-0000-0000-0000-000000000000', '1', ['1', '0'], '0',
                   '0', '1', '1', '1', '0', '1', '0', ['0', '1', '0'], ['0'], '1',
                   ['22', ['-1', '02023637-7868-4a5f-8576-835a76e0c9ba'], '0', '0', '0', '9', '""', ['1', '0'], ['1', '0'], '0'],
                   '0', '""', '""', '1', ['49', '0']],
             '""', ['4', '0'], ['0', '0'], ['0', '0'], ['0', '0'], ['0', '0'], '0', '0']]


# -- packing ---------------------------------------------------------------------------------------------------
_level = 6


def deflate(data):
    c = zlib.compressobj(1, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


def pack(tree, fmt=cfmt.F32):
    """{member path: bytes} -> container file"""
    files = []
    names = tops(tree)
    for n in names:
        if n in tree:
            files.append((n, deflate(tree[n])))
        else:
            sub = {k[len(n) + 1:]: v for k, v in tree.items() if k.startswith(n + '/')}
            files.append((n, deflate(cfmt.write_container(cfmt.F32, sorted(sub.items())))))
    return cfmt.write_container(fmt, files)


LAST = [None]      # names and sizes of the members last seen, for the count of distinct outcomes


def unpack(blob, genuine=False, which=-1):
    """container file -> {member path: bytes} of its last container"""
    out = {}
    for name, data in cfmt.parse(blob, not genuine, not genuine)[which]['files']:
        data = zlib.decompress(data, -15)
        if data[:4] in (b'\xff\xff\xff\x7f',):
            for sub, body in cfmt.parse(data, not genuine, not genuine)[-1]['files']:
                out[f'{name}/{sub}'] = body
        else:
            out[name] = data
    LAST[0] = sorted((k, len(v)) for k, v in out.items())
    return out
