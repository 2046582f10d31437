"""tools/record.py P15 <commit> <what failed>: adds a repaired defect to known_findings.json"""
import json
import os
import sys

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
prop, commit, what = sys.argv[1:4]
with open(PATH, encoding='utf-8') as f:
    items = json.load(f)
items.append(dict(property=prop, fixed=commit, what=what, entry=f'fixed: property={prop} {commit} {what}'))
with open(PATH, 'w', encoding='utf-8') as f:
    json.dump(items, f, ensure_ascii=False, indent=1)
    f.write('\n')
