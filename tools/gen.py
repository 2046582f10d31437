"""Writes properties.jsonl and MANIFEST.json. A property is claimed when checks/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS = [], {}


def prop(id, title, statement, over, quant, why, files, mechanism, observe=(), technique='', note='', state=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(quant.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
    CHECKS[id] = (' '.join(technique.split()), ' '.join(note.split()))


S = 'src/v8unpack/'
exec(open(os.path.join(HERE, 'tools', 'properties.py'), encoding='utf-8').read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

claimed = [p['id'] for p in PROPS if os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py'))]
manifest = dict(
    version=1,
    setup_cmd='./setup.sh',
    checks=[dict(property=i, quick_cmd=f'./check {i} --tier quick', thorough_cmd=f'./check {i} --tier thorough',
                 evidence_file=f'evidence/{i}.json', technique=CHECKS[i][0], level='model_checking',
                 level_note=CHECKS[i][1]) for i in claimed],
    not_applicable=[dict(property=p['id'], reason='check not built (yet); model checking applies')
                    for p in PROPS if p['id'] not in claimed],
    notes='Stateless exhaustive exploration of the real code; see DESIGN.md. No hooks in /repo: the seams (worker '
          'pool, directory listing order, file operations) are patched from the outside.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(manifest, f, ensure_ascii=False, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(claimed), 'claimed')
