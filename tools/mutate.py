#!/usr/bin/env python3
"""mutate.py COVER_PREFIX OUT [--every N] [--offset K] [--files a.py,b.py] [--stride S] [--jobs J]

Development tool (not part of any check): plants small changes (swapped comparisons, off-by-one constants, dropped
statements, negated conditions ...) in executed lines of the package, one at a time in scratch copies, and reports those
that no check notices when run with a thinned space (MC_STRIDE).  Survivors are then judged by hand.
"""
import argparse
import ast
import concurrent.futures
import copy
import glob
import json
import os
import shutil
import subprocess
import tempfile

V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
ap = argparse.ArgumentParser()
ap.add_argument('cover')
ap.add_argument('out')
ap.add_argument('--every', type=int, default=1)
ap.add_argument('--offset', type=int, default=0)
ap.add_argument('--files', default='')
ap.add_argument('--stride', default='15')
ap.add_argument('--jobs', type=int, default=8)
ap.add_argument('--list', action='store_true')
ap.add_argument('--only', default='', help='comma separated mutant ids')
ap.add_argument('--checks', default='')
ap.add_argument('--first', action='store_true', help='only the checks most concerned with the file')
A = ap.parse_args()

hit = set()
for f in glob.glob(A.cover + '.*'):
    hit |= {tuple(x) for x in json.load(open(f))}

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.LShift: ast.RShift, ast.RShift: ast.LShift}


def variants(node, parent_field):
    """Yield (description, replacement node) for one AST node."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            n = copy.deepcopy(node)
            n.ops[i] = CMP[type(op)]()
            yield f'{type(op).__name__}->{type(n.ops[i]).__name__}', n
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        yield f'{type(node.op).__name__}->{type(n.op).__name__}', n
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield 'and<->or', n
        for i in range(len(node.values)):
            vals = [copy.deepcopy(v) for j, v in enumerate(node.values) if j != i]
            yield f'drop operand {i}', vals[0] if len(vals) == 1 else ast.BoolOp(op=copy.deepcopy(node.op), values=vals)
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield 'drop not', copy.deepcopy(node.operand)
    elif isinstance(node, ast.Constant) and type(node.value) is int:
        yield f'{node.value}->{node.value + 1}', ast.Constant(node.value + 1)
        if node.value == 1:
            yield '1->0', ast.Constant(0)
    elif isinstance(node, ast.Constant) and type(node.value) is bool:
        yield f'{node.value}->{not node.value}', ast.Constant(not node.value)
    elif isinstance(node, (ast.If, ast.While)) and not isinstance(node.test, ast.Constant):
        n = copy.deepcopy(node)
        n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
        yield 'negate condition', n
    elif isinstance(node, ast.IfExp):
        yield 'always then', copy.deepcopy(node.body)
        yield 'always else', copy.deepcopy(node.orelse)
    elif isinstance(node, (ast.AugAssign, ast.Continue, ast.Break)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        yield 'drop statement', ast.Pass()
        if isinstance(node, ast.AugAssign):
            yield 'augmented -> plain', ast.Assign(targets=[copy.deepcopy(node.target)], value=copy.deepcopy(node.value), lineno=node.lineno)
    elif isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        yield 'return None', ast.Return(value=ast.Constant(None))


class Apply(ast.NodeTransformer):
    def __init__(self, n, k):
        self.n, self.k, self.i, self.what = n, k, -1, None

    def generic_visit(self, node):
        self.i += 1
        if self.i == self.n:
            for k, (what, new) in enumerate(variants(node, None)):
                if k == self.k:
                    self.what = (node.lineno, what, ast.unparse(node).split('\n')[0][:100])
                    return ast.copy_location(new, node)
        return super().generic_visit(node)

    visit = generic_visit


def mutants(fn):
    src = open(fn).read()
    tree = ast.parse(src)
    b = os.path.basename(fn)
    skip = set()
    for n in ast.walk(tree):       # annotations, docstrings and messages are no behaviour
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('debug',):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and n.value.func.attr == 'debug':
            skip.add(id(n))
        for fld in ('annotation', 'returns'):
            if getattr(n, fld, None) is not None:
                skip |= {id(x) for x in ast.walk(getattr(n, fld))}
    order = []

    class Walk(ast.NodeVisitor):
        def generic_visit(self, node):
            order.append(node)
            super().generic_visit(node)
        visit = generic_visit
    Walk().visit(tree)
    for i, node in enumerate(order):
        if id(node) in skip or not hasattr(node, 'lineno') or (b, node.lineno) not in hit:
            continue
        for k, _ in enumerate(variants(node, None)):
            yield i, k


ALL = [f'C{i:02}' for i in range(1, 22)]
ORDER = {'mapfile.py': 'C01 C16 C20 C05 C14', 'deps.py': 'C14 C17 C12', 'elf.py': 'C19 C06 C18 C05 C16', 'format_table.py': 'C09 C10 C11 C12 C13 C14',
         'format_json.py': 'C09 C10 C11 C14', 'format_csv.py': 'C21 C09 C10 C14', 'format_dot.py': 'C14 C12 C21', 'format_tree.py': 'C10 C13 C14 C11',
         'format_raw.py': 'C02 C14', 'main.py': 'C09 C15 C12 C17 C21 C18', 'log.py': 'C21 C17', 'memorymap.py': 'C04 C03 C06 C10 C07 C08 C13 C18'}


def run(m):
    fn, i, k = m
    b = os.path.basename(fn)
    t = Apply(i, k)
    tree = t.visit(ast.parse(open(fn).read()))
    ast.fix_missing_locations(tree)
    d = tempfile.mkdtemp(prefix='mut-', dir='/dev/shm')
    try:
        shutil.copytree('/repo/esp_idf_size', d + '/esp_idf_size', ignore=shutil.ignore_patterns('__pycache__'))
        with open(f'{d}/esp_idf_size/{b}', 'w') as f:
            f.write(ast.unparse(tree))
        first = A.checks.split(',') if A.checks else ORDER[b].split()
        seq = first if A.checks or A.first else first + [c for c in ALL if c not in first]
        for c in seq:
            env = dict(os.environ, MC_REPO=d, MC_EVIDENCE=d + '/.ev', MC_STRIDE=A.stride, MC_STOP='1', MC_PROCS='1')
            try:
                r = subprocess.run(['./check.sh', c, 'quick'], cwd=V, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return b, i, k, t.what, c + ' timeout'
            if r.returncode:
                return b, i, k, t.what, c + ('' if 'VIOLATION' in r.stdout else ' crash ' + (r.stderr.strip().split('\n') or [''])[-1][:80])
        return b, i, k, t.what, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = []
for fn in sorted(glob.glob('/repo/esp_idf_size/*.py')):
    if os.path.basename(fn) in ORDER and (not A.files or os.path.basename(fn) in A.files.split(',')):
        todo += [(fn, i, k) for i, k in mutants(fn)]
if A.only:
    ids = set(A.only.split(','))
    todo = [m for m in todo if f'{os.path.basename(m[0])}:{m[1]}:{m[2]}' in ids]
else:
    todo = todo[A.offset::A.every]
print(len(todo), 'mutants')
if not A.list:
    with concurrent.futures.ThreadPoolExecutor(A.jobs) as ex, open(A.out, 'a') as out:
        for res in ex.map(run, todo):
            out.write(json.dumps(res) + '\n')
            out.flush()
