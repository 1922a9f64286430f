"""Mutation sweep: mutate segpy in scratch copies, run the checks against each, list the survivors.

Not a check: used to find what the checks miss.  Usage: mutate.py WORKDIR [--files a,b] [--scale 0.25] [--jobs 8] [--seed N] [--limit N]
Results are appended to WORKDIR/results.jsonl; mutants with a result are skipped.
"""

import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUMPY = 'segpy-ext/segpy_numpy/segpy_numpy/'
ALL = ['C%02d' % i for i in range(1, 29)]
REST = 'C01 C08 C09 C12 C13 C18 C22'.split()
FIRST = {
    'binary_reel_header.py': 'C02 C03 C01', 'catalog.py': 'C06 C08 C11', 'cli.py': 'C22', '__main__.py': 'C22', 'dataset.py': 'C19 C22 C01',
    'datatypes.py': 'C24 C01 C03', 'encoding.py': 'C16 C14 C15', 'field_types.py': 'C03 C23', 'header.py': 'C23 C03 C11',
    'ibm_float.py': 'C05 C04', 'ibm_float_packer.py': 'C04 C01', 'packer.py': 'C03 C11 C24', 'reader.py': 'C07 C08 C09 C10 C11 C12 C21 C01',
    'reversed_sequence_view.py': 'C17', 'revisions.py': 'C24 C01', 'sorted_frozen_set.py': 'C17 C06', 'textual_reel_header.py': 'C14',
    'toolkit.py': 'C24 C14 C15 C12 C02 C21', 'trace_header.py': 'C02 C03', 'util.py': 'C17 C06 C09 C20', 'writer.py': 'C02 C12 C18 C13 C15',
    'array_dataset.py': 'C20', 'dtypes.py': 'C20', 'extract.py': 'C20',
}

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv, ast.Add], ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult], ast.Mod: [ast.Mult],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.BitXor], ast.Pow: [ast.Mult]}


def is_doc(parent, node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def mutations(tree):
    """Yield (description, function which mutates the tree in place given node index)."""
    nodes = list(ast.walk(tree))
    docs = set()
    for n in nodes:
        if hasattr(n, 'body') and isinstance(n.body, list):
            for s in n.body:
                if is_doc(n, s):
                    docs.add(id(s))
                    docs.add(id(s.value))
        if isinstance(n, ast.keyword) and n.arg == 'documentation':
            for x in ast.walk(n):
                docs.add(id(x))
        # Messages
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                if x is not n and not isinstance(x, ast.Raise):
                    docs.add(id(x))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'log':
            for x in ast.walk(n):
                docs.add(id(x))
        if isinstance(n, ast.FunctionDef) and n.name == '__repr__':
            for x in ast.walk(n):
                docs.add(id(x))
    for k, n in enumerate(nodes):
        if id(n) in docs:
            continue
        line = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield line, k, ('cmp', i, new.__name__)
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                yield line, k, ('bin', new.__name__)
        elif isinstance(n, ast.BoolOp):
            yield line, k, ('bool', 'Or' if isinstance(n.op, ast.And) else 'And')
            for i in range(len(n.values)):
                yield line, k, ('boolpart', i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield line, k, ('unary',)
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield line, k, ('const', not n.value)
            elif isinstance(n.value, int):
                yield line, k, ('const', n.value + 1)
                if n.value not in (0, ):
                    yield line, k, ('const', n.value - 1)
            elif isinstance(n.value, float):
                yield line, k, ('const', n.value * 1.5 + 0.1)
            elif isinstance(n.value, str) and n.value:
                yield line, k, ('const', n.value + 'X' if len(n.value) > 1 else chr(ord(n.value) ^ 2))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield line, k, ('cond', True)
            yield line, k, ('cond', False)
        elif isinstance(n, ast.Return) and n.value is not None:
            yield line, k, ('return',)
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield line, k, ('pass',)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete)):
            yield line, k, ('delete',)
        elif isinstance(n, ast.ExceptHandler):
            yield line, k, ('handler',)
        if isinstance(n, ast.AugAssign):
            yield line, k, ('delete',)
        if isinstance(n, ast.Slice):
            for part in ('lower', 'upper'):
                if getattr(n, part) is not None:
                    yield line, k, ('slice', part)
        if isinstance(n, ast.Call):
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield line, k, ('swapargs',)
            for i, kw in enumerate(n.keywords):
                if kw.arg not in ('documentation', None):
                    yield line, k, ('dropkw', i)
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'tuple', 'set', 'abs', 'reversed', 'int', 'bool', 'float', 'str', 'min', 'max') and len(n.args) == 1:
                yield line, k, ('unwrap',)
            if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'all', 'any'):
                yield line, k, ('minmax',)


def apply(source, k, m):
    tree = ast.parse(source)
    nodes = list(ast.walk(tree))
    n = nodes[k]
    parents = {}
    for p in nodes:
        for f, v in ast.iter_fields(p):
            if isinstance(v, list):
                for i, c in enumerate(v):
                    if isinstance(c, ast.AST):
                        parents[id(c)] = (p, f, i)
            elif isinstance(v, ast.AST):
                parents[id(v)] = (p, f, None)

    def replace(new):
        p, f, i = parents[id(n)]
        if i is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[i] = new

    kind = m[0]
    if kind == 'cmp':
        n.ops[m[1]] = getattr(ast, m[2])()
    elif kind == 'bin':
        n.op = getattr(ast, m[1])()
    elif kind == 'bool':
        n.op = getattr(ast, m[1])()
    elif kind == 'boolpart':
        del n.values[m[1]]
        if len(n.values) == 1:
            replace(n.values[0])
    elif kind == 'unary':
        replace(n.operand)
    elif kind == 'const':
        n.value = m[1]
    elif kind == 'cond':
        n.test = ast.Constant(m[1])
    elif kind == 'return':
        n.value = ast.Constant(None)
    elif kind in ('pass', 'delete'):
        replace(ast.Pass())
    elif kind == 'handler':
        n.body = [ast.Raise()]
    elif kind == 'slice':
        setattr(n, m[1], None)
    elif kind == 'swapargs':
        n.args.reverse()
    elif kind == 'dropkw':
        del n.keywords[m[1]]
    elif kind == 'unwrap':
        replace(n.args[0])
    elif kind == 'minmax':
        n.func.id = {'min': 'max', 'max': 'min', 'all': 'any', 'any': 'all'}[n.func.id]
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('workdir')
    p.add_argument('--files')
    p.add_argument('--scale', default='0.25')
    p.add_argument('--jobs', type=int, default=8)
    p.add_argument('--limit', type=int)
    p.add_argument('--seed', type=int, default=0)
    p.add_argument('--only-survivors', action='store_true', help='rerun the survivors of results.jsonl')
    p.add_argument('--checks')
    p.add_argument('--list', action='store_true')
    a = p.parse_args()
    os.makedirs(a.workdir, exist_ok=True)
    results_path = os.path.join(a.workdir, 'results.jsonl')
    done = {}
    if os.path.exists(results_path):
        for line in open(results_path):
            r = json.loads(line)
            done[r['id']] = r
    files = sorted('segpy/' + f for f in os.listdir('/repo/segpy') if f.endswith('.py')) + [NUMPY + f for f in ('array_dataset.py', 'dtypes.py', 'extract.py')]
    if a.files:
        files = [f for f in files if os.path.basename(f) in a.files.split(',')]
    jobs = []
    for f in files:
        source = open('/repo/' + f).read()
        seen = {ast.unparse(ast.parse(source))}
        for line, k, m in mutations(ast.parse(source)):
            try:
                text = apply(source, k, m)
                compile(text, f, 'exec')
            except Exception:
                continue
            if text in seen:
                continue
            seen.add(text)
            jobs.append(dict(id='{}:{}:{}:{}'.format(f, line, k, json.dumps(m)), file=f, line=line, k=k, m=m, text=text))
    if a.only_survivors:
        jobs = [j for j in jobs if j['id'] in done and not done[j['id']]['caught']]
    else:
        jobs = [j for j in jobs if j['id'] not in done]
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[:a.limit]
    print(len(jobs), 'mutants', file=sys.stderr, flush=True)
    if a.list:
        return
    copies = []
    for i in range(a.jobs):
        d = os.path.join(a.workdir, 'copy{}'.format(i))
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        copies.append(d)

    def run(job):
        d = copies.pop()
        try:
            original = open('/repo/' + job['file']).read()
            with open(os.path.join(d, job['file']), 'w') as f:
                f.write(job['text'])
            first = FIRST.get(os.path.basename(job['file']), '').split()
            order = a.checks.split(',') if a.checks else first + [c for c in REST if c not in first]
            env = dict(os.environ, SEGPY_REPO=d, SEGPY_EVIDENCE=d + '-evidence', VERIF_WORKERS='1', PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='1')
            caught, other = None, []
            for c in order:
                try:
                    r = subprocess.run([os.path.join(HERE, 'check.sh'), c, '--scale', a.scale], env=env, capture_output=True, text=True, timeout=1500)
                    code, out = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    code, out = 'timeout', ''
                if code == 1 and 'VIOLATION property=' + c in out:
                    caught = c
                    break
                if code != 0:
                    other.append([c, code])
            result = dict(id=job['id'], file=job['file'], line=job['line'], m=job['m'], caught=caught, other=other)
            with open(results_path, 'a') as f:
                f.write(json.dumps(result) + '\n')
            if caught is None:
                src = original.splitlines()
                print('SURVIVED', job['id'], '|', src[job['line'] - 1].strip() if job['line'] else '', other, flush=True)
            with open(os.path.join(d, job['file']), 'w') as f:
                f.write(original)
        finally:
            copies.append(d)

    with ThreadPoolExecutor(a.jobs) as pool:
        list(pool.map(run, jobs))
    for d in copies:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '-evidence', ignore_errors=True)


main()
