#!/usr/bin/env python3
"""Development aid: tools/seed.py ID|all [check ...] - in a scratch copy of /repo applies seeded/ID/patch.diff, compiles,
runs the stable tests, the demonstration and the given checks (default: the property's)."""
import json, os, shutil, subprocess, sys, tempfile, time
import xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests(copy):
    sh(f'cp -a {copy} {copy}.t')        # the tests leave files behind
    e = dict(os.environ, PYTHONPATH=f'{copy}.t/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8',
             PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p pytest_timeout --timeout=30 --continue-on-collection-errors '
       f'--rootdir={copy}.t -o junit_family=xunit2 --junitxml={copy}.xml {copy}.t/tests',
       cwd=f'{copy}.t/tests/ExternalDataProcessor803', env=e)
    shutil.rmtree(copy + '.t')
    return {(t.get('classname'), t.get('name')) for t in ET.parse(copy + '.xml').iter('testcase')
            if not [c for c in t if c.tag in ('failure', 'error', 'skipped')]}


def main(sid, checks):
    d = f'{V}/seeded/{sid}'
    meta = json.load(open(f'{d}/meta.json'))
    top = tempfile.mkdtemp(prefix='seed-')
    copy = top + '/repo'
    try:
        sh(f'cp -a /repo {copy} && git -C {copy} checkout -q -- . && git -C {copy} clean -ffdXq -- tests')
        base = tests(copy)
        r = sh(f'bash {d}/demo.sh', cwd=copy)
        res = [f'clean demo={r.returncode} ({len(base)} tests)']
        if r.returncode:
            print(r.stdout[-600:], r.stderr[-900:])
        r = sh(f'git -C {copy} apply {d}/patch.diff')
        if r.returncode:
            print(sid, 'PATCH DOES NOT APPLY', r.stderr)
            return
        res.append(f'lost={sorted(base - tests(copy))}')
        r = sh(f'bash {d}/demo.sh', cwd=copy)
        res.append(f'patched demo={r.returncode} {(r.stdout + r.stderr).strip()[-200:]}')
        if not r.returncode:
            print(r.stdout[-600:], r.stderr[-900:])
        for c in checks or [meta['property']]:
            t = time.time()
            r = sh(f'{V}/check {c} --no-evidence', env=dict(os.environ, VERIF_REPO=copy))
            line = [x for x in (r.stdout + r.stderr).splitlines() if x.strip()]
            res.append(f'{c}: rc={r.returncode} {time.time()-t:.0f}s {" | ".join(line[:2])[:330]}')
    finally:
        shutil.rmtree(top)
    print(sid, '\n   '.join([''] + res), flush=True)


if sys.argv[1] == 'all':
    for s in sorted(os.listdir(f'{V}/seeded')):
        main(s, sys.argv[2:])
else:
    main(sys.argv[1], sys.argv[2:])
