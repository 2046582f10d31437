"""Writes DESIGN.md: tools/design.md with {{...}} parts filled in from the checks, known_findings.json and seeded/."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def tables():
    props = {}
    for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
        p = json.loads(line)
        props[p['id']] = p
    out = {}
    for pid, p in props.items():
        c = importlib.import_module(f'checks.{pid}').CHECK
        out[pid] = f'''### {pid} — {p['title']}

*Enumerated:* {c.rule}.
*Spaces:* {', '.join(s[0] for s in c.spaces('quick')) if len(c.spaces('quick')) < 15 else 'one per kind of module'}.
*Bounds:* quick — {c.bound['quick']}; thorough — {c.bound['thorough']}.'''
    known = json.load(open(os.path.join(HERE, 'known_findings.json'), encoding='utf-8'))
    out['FIXED'] = '\n'.join(f"* {e['property']} `{e['fixed']}` {e['what']}" for e in known if 'fixed' in e)
    out['KNOWN'] = '\n'.join(f"* {e['property']}: {e['what']}" for e in known if 'fixed' not in e)
    rows = ['| change | needs | breaks |', '|---|---|---|']
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d, encoding='utf-8'))
        rows.append(f"| {os.path.basename(os.path.dirname(d))} ({m['property']}) | {m['needs']} | {m['what_it_breaks']} |")
    out['SEEDED'] = '\n'.join(rows)
    return out


def main():
    text = open(os.path.join(HERE, 'tools', 'design.md'), encoding='utf-8').read()
    for k, v in tables().items():
        text = text.replace('{{' + k + '}}', v)
    left = [x for x in text.split('{{')[1:]]
    if left:
        sys.exit('not filled in: ' + left[0][:20])
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write(text)


main()
