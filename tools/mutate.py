"""Mutation campaign: small changes of the code that still pass the stable tests, each run against the checks that could
see it, in copies of the repository under /dev/shm. Lists the changes no check sees, for inspection.

    python3 tools/mutate.py OUT.jsonl [--file substring] [--every N] [--offset K] [--jobs 8] [--slow] [--stride N] [--only n,n,...]
"""
import argparse
import ast
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time
import warnings
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
REPO = '/repo'
TOP = '/dev/shm/mutants'
SKIP = ('unittest_helper.py', 'version.py', '/container.py', '__main__.py', 'ext_exception.py')
SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn:
        'in', ast.Is: 'is not', ast.IsNot: 'is'}

IO = ['P01', 'P02', 'P03', 'P04', 'P05', 'P06']
ALL = ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P16', 'P19', 'P20', 'P18', 'P21', 'P11', 'P17',
       'P15', 'P22', 'P23', 'P24', 'P25', 'P26', 'P27']
SLOW = ['P12', 'P13', 'P14']


def relevant(path):
    if 'FormElements4' in path:
        return ['P22', 'P26', 'P23', 'P08', 'P27']
    if 'FormElements2' in path:
        return ['P24', 'P26', 'P16', 'P27']
    if '/Form/' in path:
        return ['P22', 'P16', 'P26', 'P24', 'P15', 'P23', 'P18', 'P19', 'P20', 'P17', 'P25', 'P27']
    if 'organizer_form_elem' in path:
        return ['P08', 'P26', 'P23', 'P24', 'P22', 'P15', 'P11', 'P09', 'P27']
    if 'container' in path and 'json' not in path:
        return ['P02', 'P03', 'P01', 'P15', 'P16', 'P21']
    if 'MetaDataObject' in path:
        return ['P16', 'P15', 'P18', 'P19', 'P17', 'P20', 'P11', 'P25', 'P27']
    return ALL


def mutants(path):
    src = open(os.path.join(REPO, path), encoding='utf-8', newline='').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)
    raw = src.encode()

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    out = []

    def put(a, b, new, what, line):
        text = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(text)
        except SyntaxError:
            return
        out.append(dict(file=path, line=line, what=what, old=raw[a:b].decode(), new=new, text=text.decode()))

    def visit(node, quiet=False):
        if isinstance(node, ast.Raise) or isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and \
                node.func.id in ('print', 'ExtException', 'tqdm'):
            quiet = True
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('add_argument',):
            quiet = True
        if not quiet:
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                a, b = span(node.left)[1], span(node.comparators[0])[0]
                put(a, b, f' {SWAP[type(node.ops[0])]} ', 'compare', node.lineno)
            if isinstance(node, ast.BoolOp):
                a, b = span(node.values[0])[1], span(node.values[1])[0]
                put(a, b, ' or ' if isinstance(node.op, ast.And) else ' and ', 'boolop', node.lineno)
                for v in node.values:
                    a, b = span(v)
                    put(a, b, 'True' if isinstance(node.op, ast.And) else 'False', 'drop operand', node.lineno)
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                put(*span(node), '(' + raw[slice(*span(node.operand))].decode() + ')', 'not', node.lineno)
            if isinstance(node, ast.Constant) and isinstance(node.value, bool):
                put(*span(node), str(not node.value), 'bool', node.lineno)
            elif isinstance(node, ast.Constant) and isinstance(node.value, int):
                put(*span(node), str(node.value + 1), 'int', node.lineno)
            if isinstance(node, (ast.If, ast.While, ast.IfExp)):
                put(*span(node.test), 'False', 'never', node.lineno)
                if not isinstance(node, ast.While):
                    put(*span(node.test), 'True', 'always', node.lineno)
            if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break)) and not (
                    isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                put(*span(node), 'pass', 'delete', node.lineno)
            if isinstance(node, ast.Return) and node.value is not None and not (
                    isinstance(node.value, ast.Constant) and node.value.value is None):
                put(*span(node), 'return None', 'return', node.lineno)
            if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
                a, b = span(node.left)[1], span(node.right)[0]
                put(a, b, ' - ' if isinstance(node.op, ast.Add) else ' + ', 'arith', node.lineno)
        for child in ast.iter_child_nodes(node):
            visit(child, quiet)
    visit(tree)
    return out


def stable(copy):
    report = os.path.join(copy, 'junit.xml')
    if os.path.exists(report):
        os.remove(report)
    subprocess.run(['git', '-C', copy, 'clean', '-ffdXq', '--', 'tests'])
    e = dict(os.environ, PYTHONPATH=os.path.join(copy, 'src'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8',
             PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    try:
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'pytest_timeout',
                        '--timeout=30', '--continue-on-collection-errors', '--rootdir=' + copy, '-o', 'junit_family=xunit2',
                        '--junitxml=' + report, os.path.join(copy, 'tests')], cwd=os.path.join(
                            copy, 'tests', 'ExternalDataProcessor803'), env=e, capture_output=True, timeout=200)
        passed = set()
        for t in ET.parse(report).iter('testcase'):
            if not len([c for c in t if c.tag in ('failure', 'error', 'skipped')]):
                passed.add((t.get('classname'), t.get('name')))
        return passed
    except Exception:
        return set()


def work(args):
    i, m, slow, base, stride = args
    copy = os.path.join(TOP, f'c{multiprocessing.current_process()._identity[0]}')
    if not os.path.exists(copy):
        shutil.copytree(REPO, copy, symlinks=True)
    target = os.path.join(copy, m['file'])
    orig = open(os.path.join(REPO, m['file']), encoding='utf-8', newline='').read()
    with open(target, 'w', encoding='utf-8', newline='') as f:
        f.write(m['text'])
    begin = time.time()
    try:
        if base is not None and not base <= stable(copy):
            return i, 'tests', time.time() - begin
        checks = SLOW if slow else relevant(m['file'])
        e = dict(os.environ, VERIF_REPO=copy, VERIF_STOP='1')
        for c in checks:
            try:
                r = subprocess.run([os.path.join(HERE, 'check'), c, '--no-evidence', '--workers', '1',
                                    '--stride', str(stride)], env=e,
                                   capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                return i, c + ' timeout', time.time() - begin
            if r.returncode:
                return i, f'{c} {r.returncode}', time.time() - begin
        return i, None, time.time() - begin
    finally:
        with open(target, 'w', encoding='utf-8', newline='') as f:
            f.write(orig)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('out')
    p.add_argument('--file', default='')
    p.add_argument('--every', type=int, default=1)
    p.add_argument('--offset', type=int, default=0)
    p.add_argument('--jobs', type=int, default=8)
    p.add_argument('--slow', action='store_true')
    p.add_argument('--stride', type=int, default=1)
    p.add_argument('--only')
    p.add_argument('--list', action='store_true')
    a = p.parse_args()
    found = []
    for d, _, ff in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(ff):
            path = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith('.py') and not path.endswith(SKIP) and any(x in path for x in a.file.split(',')):
                found += mutants(path)
    found = list(enumerate(found))[a.offset::a.every]
    if a.only:
        only = set(map(int, a.only.split(',')))
        found = [x for x in found if x[0] in only]
    print(len(found), 'mutants', flush=True)
    if a.list:
        return
    os.makedirs(TOP, exist_ok=True)
    copy = os.path.join(TOP, 'base')
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(REPO, copy, symlinks=True)
    base = None if a.slow else stable(copy)
    print(len(base or ()), 'tests', flush=True)
    counts = {}
    by = dict(found)
    with multiprocessing.Pool(a.jobs) as pool, open(a.out, 'a') as out:
        for i, killed, t in pool.imap_unordered(work, [(i, m, a.slow, base, a.stride) for i, m in found]):
            m = by[i]
            out.write(json.dumps(dict(n=i, killed=killed, t=round(t, 1), **{k: m[k] for k in (
                'file', 'line', 'what', 'old', 'new')}), ensure_ascii=False) + '\n')
            out.flush()
            counts[killed] = counts.get(killed, 0) + 1
            if killed is None:
                print('SURVIVES', i, m['file'], m['line'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:30]), flush=True)
    print(counts)
    shutil.rmtree(TOP)


main()
