"""Independent model of the 1C brace format ("скобкофайл"): character-level reader, layout-free writer.

Values: list, or str holding the raw token - strings keep their quotes and doubled quotes.
Base64 payloads are compared without their line breaks.
"""
import itertools

WS = ' \t\r\n\ufeff'


class BadBrace(Exception):
    pass


def parse(text):
    """-> list of root values; tokens raw, base64 line breaks removed, string newlines normalised to \\n"""
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    pos = 0
    n = len(text)
    roots = []
    stack = []
    expect_value = True
    while pos < n:
        ch = text[pos]
        if ch in '\n\ufeff':
            pos += 1
            continue
        if ch == '{':
            node = []
            if stack:
                stack[-1].append(node)
            else:
                roots.append(node)
            stack.append(node)
            pos += 1
            expect_value = True
        elif ch == '}':
            if not stack:
                raise BadBrace(f'extra }} at {pos}')
            if expect_value:
                stack[-1].append('')
            stack.pop()
            pos += 1
            expect_value = False
        elif ch == ',':
            if expect_value:
                if not stack:
                    raise BadBrace('comma at the root')
                stack[-1].append('')
            pos += 1
            expect_value = True
        elif ch == '"':
            end = pos + 1
            while True:
                end = text.find('"', end)
                if end < 0:
                    raise BadBrace('unterminated string')
                if text[end + 1:end + 2] == '"':
                    end += 2
                    continue
                break
            if not stack or not expect_value:
                raise BadBrace(f'string out of place at {pos}')
            stack[-1].append(text[pos:end + 1])
            pos = end + 1
            expect_value = False
        else:
            end = pos
            while end < n and text[end] not in ',{}"':
                end += 1
            if not stack or not expect_value:
                raise BadBrace(f'token out of place at {pos}: {text[pos:pos + 20]!r}')
            if end < n and text[end] in '{"':
                raise BadBrace(f'token runs into {text[end]!r} at {end}')
            stack[-1].append(text[pos:end].replace('\n', ''))
            pos = end
            expect_value = False
    if stack:
        raise BadBrace('unclosed object')
    return roots


def write(roots, nl='\n', close='auto', b64_nl=None, short_nl=True):
    """Canonical 1C layout: every nested object starts a line.
    close: auto - '}' on its own line after a nested object; never - directly after it.
    Base64 tokens are broken as 1C does (first line 64, or 72 with the #base64: prefix)."""
    b64_nl = b64_nl or nl

    def obj(node):
        out = ['{']
        for i, e in enumerate(node):
            if isinstance(e, list):
                out.append(nl)
                out.append(obj(e))
                if i == len(node) - 1 and close == 'auto':
                    out.append(nl)
            elif e.startswith('##base64:'):
                out.append(e[1:])
            elif e.startswith('#base64:'):
                out.append(b64_nl.join([e[:72]] + [e[j:j + 64] for j in range(72, len(e), 64)]))
                if len(e) == 72 or len(e) < 72 and short_nl:
                    out.append(b64_nl)
            elif len(e) > 64 and is_b64(e):
                out.append(b64_nl.join(e[j:j + 64] for j in range(0, len(e), 64)))
            else:
                out.append(e.replace('\n', nl))
            if i < len(node) - 1:
                out.append(',')
        out.append('}')
        return ''.join(out)
    return (',' + nl).join(obj(r) for r in roots)


B64 = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')


def is_b64(e):
    body = e.rstrip('=')
    return len(e) % 4 == 0 and len(e) - len(body) <= 2 and all(c in B64 for c in body)


def norm(v):
    """semantic form of a parsed value: one-line and many-line base64 objects are the same thing"""
    if isinstance(v, list):
        return [norm(x) for x in v]
    if v is None:      # the tool's reading of an empty value that follows a nested object
        return ''
    if v.startswith('##base64:'):
        return v[1:]
    return v


def shapes(nodes):
    """All ordered trees with exactly `nodes` nodes as nested lists, '*' marking a leaf value.
    A list has at least one element."""
    if nodes < 2:
        return

    def forests(k):
        """sequences of subtrees using k nodes in total (k>=1)"""
        for first in range(1, k + 1):
            for t in trees(first):
                if first == k:
                    yield [t]
                else:
                    for rest in forests(k - first):
                        yield [t] + rest

    def trees(k):
        if k == 1:
            yield '*'
        else:
            for f in forests(k - 1):
                yield f
    for f in forests(nodes - 1):
        yield f


def leaves(shape):
    return sum(leaves(x) if isinstance(x, list) else 1 for x in shape)


def fill(shape, values):
    it = iter(values)

    def go(s):
        return [go(x) if isinstance(x, list) else next(it) for x in s]
    return go(shape)
