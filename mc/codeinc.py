"""Reference model of module text with include areas (docs/usage.md, "Переиспользование кода").

A module is a forest:
  ['L', text]                     a code line
  ['A', children]                 an ordinary area
  ['I'|'R', name, directive, children]   include_/includr_ area (R = read only: never written back)
  ['D', indent, tail]             a //DynamicDirective marker line
"""
import posixpath


def forests(n, leaves, inner):
    """every ordered forest with exactly n nodes; leaves/inner: lists of label constructors
    (leaf: [kind,...]; inner: callable(children) -> node)"""
    if n == 0:
        yield []
        return
    for first in range(1, n + 1):
        for tree in trees(first, leaves, inner):
            for rest in forests(n - first, leaves, inner):
                yield [tree] + rest


def trees(n, leaves, inner):
    if n == 1:
        for leaf in leaves:
            yield leaf
    for children in forests(n - 1, leaves, inner):
        for make in inner:
            yield make(children)


# how the lines of the areas are written: a style of the whole text, see STYLES
STYLE = 'plain'
STYLES = ['plain', 'indent', 'comments', 'tabs', 'spaces']


def area(node):
    kind = node[0]
    if kind == 'A':
        return {'indent': '\t#Область Обычная', 'comments': '#Область Обычная // Обычная', 'tabs': '#Область\tОбычная',
                'spaces': '#Область  Обычная '}.get(STYLE, '#Область Обычная')
    word = 'include' if kind == 'I' else 'includr'
    text = f'#Область {word}_{node[1]}' + (f' //{node[2]}' if node[2] else '')
    if STYLE == 'indent':
        return '\t ' + text
    if STYLE == 'spaces':
        return text + ' \t'
    if STYLE == 'comments' and node[2]:
        return text + ' // пояснение'
    return text


def end(node):
    if STYLE == 'indent':
        return '\t\t#КонецОбласти'
    if STYLE == 'comments':
        return '#КонецОбласти // ' + (node[1] if node[0] != 'A' else 'Обычная')
    if STYLE == 'tabs':
        return '#КонецОбласти\t'
    return '#КонецОбласти'


def target(name, enclosing_dir, remap=None, up='..'):
    """directory (relative to the sources directory) and file name of an include area"""
    if remap and name in remap:
        name = remap[name]
    parts = name.split('_')
    fname = parts[-1] + '.bsl'
    if len(parts) == 1:
        return enclosing_dir, fname
    return posixpath.join(up, *['..' if p == '' else p for p in parts[:-1]]), fname


def text(forest, directive=None, in_include=False):
    """the complete module text"""
    out = []
    for node in forest:
        if node[0] == 'L':
            out.append(node[1] + '\n')
        elif node[0] == 'D':
            out.append((f'{directive} ' if directive else node[1]) + '//DynamicDirective' + node[2] + '\n')
        elif node[0] == 'A':
            out.append(area(node) + '\n')
            out.append(text(node[1], directive))
            out.append(end(node) + '\n')
        else:
            out.append(area(node) + '\n')
            out.append(text(node[3], node[2] or directive))
            out.append(end(node) + '\n')
    return ''.join(out)


class Conflict(Exception):
    """two areas name the same file with different content: which one is kept is not specified"""


def split(forest, root_dir, root_name, remap=None, up='..', with_readonly=False):
    """{(dir, name): source text} of the fragments (and of the module itself)"""
    files = {}

    def stub(children, here, stack):
        out = []
        for node in children:
            if node[0] == 'L':
                out.append(node[1] + '\n')
            elif node[0] == 'D':
                out.append(node[1] + '//DynamicDirective' + node[2] + '\n')
            elif node[0] == 'A':
                out.append(area(node) + '\n' + stub(node[1], here, stack) + end(node) + '\n')
            else:
                d, f = target(node[1], here, remap, up)
                key = (posixpath.normpath(d), f)
                if key in stack:
                    raise Conflict
                body = stub(node[3], d, stack + [key])
                if node[0] == 'I' or with_readonly:
                    if files.setdefault(key, body) != body:
                        raise Conflict
                ro = readonly.setdefault(key, body)
                if ro != body:
                    raise Conflict
                out.append(area(node) + '\n' + end(node) + '\n')
        return ''.join(out)
    readonly = {}
    rkey = (posixpath.normpath(root_dir or '.'), root_name)
    body = stub(forest, root_dir, [rkey])
    if rkey in readonly:
        raise Conflict
    files[rkey] = body
    return files
