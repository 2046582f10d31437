"""Rebuilds mc/form_records.json.xz: one genuine record of every shape of form element, attribute, command and
parameter found in the forms the repository's tests come with and in the genuine products under fixtures/. Run by
hand when fixtures change; the checks only read the result.

    python3 tools/records.py /repo/tests/data
"""
import collections
import glob
import json
import lzma
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from mc import brace, v8conf  # noqa: E402
from mc.forms import CMD, KIDS, KIND, NAME, PROP, root_elements, at  # noqa: E402

PANEL = '09ccdc77-ea1a-4a6d-ab1c-3435eada2433'


def genuine(data):
    out = {}
    for f in sorted(glob.glob(os.path.join(data, 'form_elem_803', '*.json'))):
        out[os.path.basename(f)] = json.load(open(f))
    for f in sorted(glob.glob(os.path.join(data, 'form82', '*'))):
        out[os.path.basename(f)] = brace.parse(open(f, encoding='utf-8-sig').read())
    for f in sorted(glob.glob(os.path.join(HERE, 'fixtures', '*.*f'))):
        for n, b in v8conf.unpack(open(f, 'rb').read(), genuine=True).items():
            if n.endswith('.0') or n.endswith('/form'):
                try:
                    out[os.path.basename(f) + ':' + n] = brace.parse(b.decode('utf-8-sig'))
                except Exception:
                    pass
    return out


def smallest(bag, key, record):
    k = json.dumps(key, ensure_ascii=False)
    if k not in bag or len(json.dumps(record)) < len(json.dumps(bag[k])):
        bag[k] = record


def main():
    bag = {n: {} for n in ('uf', 'root', 'attr', 'cmd', 'param', 'of', 'page', 'panel', 'ofform', 'ofattr')}

    def element(uuid, raw):
        kind = KIND.get(uuid)
        if kind is None:
            return
        raw = json.loads(json.dumps(raw))
        try:
            if not raw[at(NAME[kind], raw)].startswith('"'):
                return
        except Exception:
            return
        if kind in KIDS:
            i = at(KIDS[kind], raw)
            n = int(raw[i])
            if len(raw) < i + 1 + 2 * n or any(not isinstance(raw[i + 2 + 2 * j], list) for j in range(n)):
                return                      # one of the files with lost brackets among the test data
            for j in range(n):
                element(raw[i + 1 + 2 * j], raw[i + 2 + 2 * j])
            del raw[i + 1:i + 1 + 2 * n]
            raw[i] = '0'
        key = [kind, raw[0], raw[3], len(raw[at(PROP[kind], raw)]) > 1 if kind in PROP else None,
               raw[at(CMD[kind], raw)][1] == '409b9a53-7f7e-4178-86c1-33176c7c7a7a' if kind in CMD else None]
        smallest(bag['uf'], key, raw)

    def ordinary(els):
        for e in els[1:]:
            e = json.loads(json.dumps(e))
            if e[0] == PANEL:
                ordinary(e[-1])
                e[-1] = ['0']
                smallest(bag['panel'], [len(e)], e)
            else:
                smallest(bag['of'], [e[0], len(e)], e)

    for name, form in genuine(sys.argv[1]).items():
        body = form[0]
        if body[0] == '27' and len(body) == 20:
            body = json.loads(json.dumps(body))
            ordinary(body[1][2][2])
            info = body[1][2][1][1]
            i = at([(2, 1), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (4, 0)], info)
            for p in info[i][2:]:
                smallest(bag['page'], [p[0], len(p)], p)
            for a in body[2][2][1:]:
                smallest(bag['ofattr'], [len(a), len(a[0]), len(a[5])], a)
            smallest(bag['ofform'], ['27'], body)
            continue
        if isinstance(body[0], list):
            body = body[0]
        if body[0] not in ('2', '3', '4') or len(body) < 8:
            continue
        body = json.loads(json.dumps(body))
        root = body[1]
        i = root_elements(root)
        n = int(root[i])
        for j in range(n):
            element(root[i + 1 + 2 * j], root[i + 2 + 2 * j])
        del root[i + 1:i + 1 + 2 * n]
        root[i] = '0'
        for what, at_, key in (('attr', 3, lambda a: [a[0], len(a[5]), len(a[14])]), ('param', 4, lambda a: [a[0], len(a)]),
                               ('cmd', 5, lambda a: [a[0], len(a)])):
            items = body[at_]
            for a in items[2:2 + int(items[1])]:
                if what == 'attr':
                    for c in a[14:14 + int(a[13])]:
                        smallest(bag['attr'], ['child', c[0], len(c)], c)
                    del a[14:14 + int(a[13])]
                    a[13] = '0'
                smallest(bag[what], key(a), a)
            del items[2:2 + int(items[1])]
            items[1] = '0'
        body[2] = '""'
        smallest(bag['root'], [body[0], root[0], len(body), root[18] != '0'], body)
    with lzma.open(os.path.join(HERE, 'mc', 'form_records.json.xz'), 'wt', encoding='utf-8') as f:
        json.dump(bag, f, ensure_ascii=False, sort_keys=True)
    for n, b in bag.items():
        print(n, len(b))
        for k, v in b.items():
            print('   ', k, len(json.dumps(v)))


main()
