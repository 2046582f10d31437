"""Small file-tree helpers of the harness."""
import os
import shutil


def tree(root):
    """{relative path: bytes}; empty directories appear as 'path/': None"""
    res = {}
    if not os.path.isdir(root):
        return res
    for cur, dirs, files in os.walk(root):
        rel = os.path.relpath(cur, root)
        if rel == '.':
            rel = ''
        for name in files:
            with open(os.path.join(cur, name), 'rb') as f:
                res[os.path.join(rel, name)] = f.read()
        if not dirs and not files and rel:
            res[rel + '/'] = None
    return res


def files_only(t):
    return {k: v for k, v in t.items() if v is not None}


def put(root, content):
    """content: {relative path: bytes|str}"""
    os.makedirs(root, exist_ok=True)
    for rel, data in content.items():
        path = os.path.join(root, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if data is None:
            os.makedirs(path, exist_ok=True)
            continue
        if isinstance(data, str):
            data = data.encode('utf-8')
        with open(path, 'wb') as f:
            f.write(data)


def wipe(path):
    shutil.rmtree(path, ignore_errors=True)


def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def diff(a, b, limit=4):
    """short description of the difference of two trees"""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out.append(f'missing {k}')
        elif k not in a:
            out.append(f'extra {k}')
        elif a[k] != b[k]:
            x, y = a[k], b[k]
            i = 0
            if x is not None and y is not None:
                n = min(len(x), len(y))
                while i < n and x[i] == y[i]:
                    i += 1
                out.append(f'{k} differs at {i}: expected …{x[max(0, i - 20):i + 40]!r} got …{y[max(0, i - 20):i + 40]!r}'
                           f' (sizes {len(x)}/{len(y)})')
            else:
                out.append(f'{k} differs')
        if len(out) >= limit:
            out.append('…')
            break
    return '; '.join(out)


def pattern(n, salt=0):
    """deterministic incompressible-ish bytes without long repeats"""
    out = bytearray()
    x = (salt * 2654435761 + 12345) & 0xffffffff
    while len(out) < n:
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out += bytes(((x >> 16) & 255, (x >> 8) & 255))
    return bytes(out[:n])
