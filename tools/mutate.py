#!/usr/bin/env python3
"""
Mutation run: which small changes of rf are seen by no check?

python3 tools/mutate.py OUT.jsonl [FILE ...]     (scratch copies in /tmp)

A mutant is tried with the checks listed for its function (few executions
first, then the complete quick tier). No mutant is ever written to /repo.
"""
import ast
import copy
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import threading
import warnings
warnings.simplefilter("ignore")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = ['rf/rfstream.py', 'rf/deconvolve.py', 'rf/util.py',
         'rf/simple_model.py', 'rf/profile.py', 'rf/harmonics.py',
         'rf/batch.py', 'rf/imaging.py']
PROPS = {  # function: properties, in the order they are tried
    'rf/harmonics.py': 'C21 C29 C28',
    'rf/imaging.py': 'C30 C31 C28 C26',
    'rf/profile.py': 'C20 C19 C28 C29 C24',
    'rf/simple_model.py': 'C15 C16 C17 C27 C28 C13',
    'rf/batch.py': 'C25 C24 C26',
    'rf/deconvolve.py': 'C11 C06 C12 C13 C28 C29',
    'rf/rfstream.py': 'C32 C01 C02 C03 C12 C28',
    'rf/util.py': 'C22 C23 C24',
    'deconv_time': 'C07 C06', '_acorrt': 'C07 C06', '_xcorrt': 'C07 C06',
    '_add_zeros': 'C07 C06', 'deconv_waterlevel': 'C08 C06 C28',
    '_gauss_filter': 'C08 C09 C10', '_phase_shift_filter': 'C08 C09 C10',
    '_apply_filter': 'C09', 'deconv_iterative': 'C09 C06 C28',
    'deconv_multitaper': 'C10 C06 C28',
    'rfstats': 'C03 C04 C28 C22', 'obj2stats': 'C03 C04 C28',
    'wrapper': 'C03 C04', '__get_event_magnitude': 'C03 C04',
    '__get_event_id': 'C03', 'write': 'C01 C02 C24 C26',
    'trim2': 'C05 C28', 'slice2': 'C05 C28', '_seconds2utc': 'C05',
    'rf': 'C12 C14 C13 C29 C28 C06', 'moveout': 'C15 C13 C29 C28',
    'ppoints': 'C17 C13', 'stack': 'C18 C28 C29', 'deconvolve': 'C11 C13 '
    'C12 C06 C28 C29', 'IterMultipleComponents': 'C23 C12',
    '_add_processing_info': 'C29 C28', 'minimal_example_rf': 'C27',
    'minimal_example_Srf': 'C27', 'ppoint': 'C17 C28',
    'ppoint_distance': 'C17', '_read_format_specific_header': 'C01',
    '_write_format_specific_header': 'C01 C02', '__str__': 'C32',
    'iter_event_data': 'C22 C28 C24', 'iter_event_metadata': 'C24 C22',
    'load_func': 'C24 C25 C27', 'init_data': 'C24 C25', '__init__': 'C32 '
    'C01 C16 C23',
}


class Sites(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.out = []
        self.stack = []

    def add(self, node, new, kind):
        text = new if isinstance(new, str) else ast.unparse(new)
        self.out.append((node.lineno, node.col_offset, node.end_lineno,
                         node.end_col_offset, text, kind,
                         [s for s in self.stack]))

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            body = body[1:]
        for n in body:
            self.visit(n)
        self.stack.pop()

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.Assign)):
                self.visit(n)
        self.stack.pop()

    def visit_Import(self, node):
        pass
    visit_ImportFrom = visit_Raise = visit_JoinedStr = visit_Import

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            swap = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
                    ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                    ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
                    ast.IsNot: ast.Is}
            n = copy.deepcopy(node)
            n.ops = [swap[type(node.ops[0])]()]
            self.add(node, '(%s)' % ast.unparse(n), 'compare')
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
                    ast.GtE: ast.LtE}
            if type(node.ops[0]) in flip:
                n.ops = [flip[type(node.ops[0])]()]
                self.add(node, '(%s)' % ast.unparse(n), 'compare')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
                ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Add,
                ast.Pow: ast.Mult}
        fmt = isinstance(node.op, ast.Mod) and isinstance(
            node.left, ast.Constant)
        if type(node.op) in swap and not fmt:
            n = copy.deepcopy(node)
            n.op = swap[type(node.op)]()
            self.add(node, '(%s)' % ast.unparse(n), 'binop')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        n = copy.deepcopy(node)
        n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        self.add(node, '(%s)' % ast.unparse(n), 'boolop')
        for k in range(len(node.values)):
            n = copy.deepcopy(node)
            del n.values[k]
            self.add(node, '(%s)' % ast.unparse(
                n.values[0] if len(n.values) == 1 else n), 'drop operand')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        self.add(node, '(%s)' % ast.unparse(node.operand), 'unary')
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), 'const')
        elif v is None:
            pass
        elif isinstance(v, (int, float)):
            self.add(node, str(v + 1), 'const')
            if v not in (0, 1):
                self.add(node, str(v - 1), 'const')
        elif isinstance(v, str) and v and ' ' not in v and self.stack:
            self.add(node, repr(v + 'X'), 'const')

    def visit_If(self, node):
        self.add(node.test, 'True', 'if')
        self.add(node.test, 'False', 'if')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, '(%s)' % ast.unparse(node.body), 'ifexp')
        self.add(node, '(%s)' % ast.unparse(node.orelse), 'ifexp')
        self.generic_visit(node)

    def visit_Expr(self, node):
        if not isinstance(node.value, (ast.Yield, ast.Constant)):
            self.add(node, 'pass', 'delete')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, 'pass', 'delete')
        self.generic_visit(node)

    def visit_Assign(self, node):
        if any(not isinstance(t, ast.Name) for t in node.targets) or \
                isinstance(node.value, (ast.BinOp, ast.Call)):
            if self.stack and not isinstance(node.targets[0], ast.Tuple):
                self.add(node, 'pass', 'delete')
        self.generic_visit(node)

    def visit_Continue(self, node):
        self.add(node, 'break', 'continue')
        self.add(node, 'pass', 'continue')

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ('copy', 'upper',
                                                       'lower'):
            self.add(node, ast.unparse(f.value), 'drop call')
        name = ast.unparse(f)
        if name in ('deepcopy', 'copy', 'sorted', 'round', 'abs', 'int',
                    'np.abs', 'np.asarray', 'np.ceil', 'float', 'str',
                    'np.array') and node.args:
            self.add(node, '(%s)' % ast.unparse(node.args[0]), 'drop call')
        for k in range(len(node.keywords)):
            if node.keywords[k].arg:
                n = copy.deepcopy(node)
                del n.keywords[k]
                self.add(node, ast.unparse(n), 'drop kwarg')
        self.generic_visit(node)

    def visit_Tuple(self, node):
        if isinstance(node.ctx, ast.Load) and len(node.elts) > 2:
            for k in range(len(node.elts)):
                n = copy.deepcopy(node)
                del n.elts[k]
                self.add(node, '(%s)' % ast.unparse(n).strip('()'), 'drop item')
        self.generic_visit(node)
    visit_List = visit_Tuple


def mutants(fname):
    with open(os.path.join(REPO, fname)) as f:
        src = f.read()
    lines = src.split('\n')
    off = [0]
    b = src.encode()
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    s = Sites(src)
    for node in ast.parse(src).body:
        s.visit(node)
    seen = set()
    for l0, c0, l1, c1, text, kind, stack in s.out:
        a, e = off[l0 - 1] + c0, off[l1 - 1] + c1
        new = (b[:a] + text.encode() + b[e:]).decode()
        try:
            compile(new, fname, 'exec')
        except SyntaxError:
            continue
        if new in seen or 'run_cli' in stack:
            continue
        seen.add(new)
        yield {'file': fname, 'line': l0, 'kind': kind, 'stack': stack,
               'old': b[a:e].decode(), 'new': text, 'src': new}


def props(m):
    out = []
    for s in [*reversed(m['stack']), m['file']]:
        if m['file'] == 'rf/batch.py' and s in ('write',):
            continue
        for p in PROPS.get(s, '').split():
            if p not in out:
                out.append(p)
    return out


def worker(k, q, fo, lock, tmp, opts):
    tree = os.path.join(tmp, 'w%d' % k)
    shutil.copytree(REPO, tree, symlinks=True,
                    ignore=shutil.ignore_patterns('.git'))
    env = dict(os.environ, VERIF_REPO=tree, PYTHONPATH=tree,
               VERIF_OUT=os.path.join(tmp, 'o%d' % k), VERIF_SEED='1',
               PYTHONDONTWRITEBYTECODE='1')
    os.makedirs(env['VERIF_OUT'], exist_ok=True)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        with open(os.path.join(REPO, m['file'])) as f:
            orig = f.read()
        with open(os.path.join(tree, m['file']), 'w') as f:
            f.write(m['src'])
        res = None
        for scale in opts['scales']:
            for p in props(m):
                try:
                    r = subprocess.run(
                        ['taskset', '-c', str(k), os.path.join(V, 'check'), p,
                         '--scale', str(scale)], env=env,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                        text=True, timeout=900)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 99, 'timeout'
                if rc:
                    cl = re.search(r'clause .*', o)
                    res = [p, scale, rc, (cl.group(0) if cl else
                                          o[-200:])[:200]]
                    break
            if res:
                break
        with open(os.path.join(tree, m['file']), 'w') as f:
            f.write(orig)
        shutil.rmtree(os.path.join(env['VERIF_OUT'], 'replays'),
                      ignore_errors=True)
        m.pop('src')
        m['killed'] = res
        with lock:
            fo.write(json.dumps(m) + '\n')
            fo.flush()


if __name__ == '__main__':
    out, files = sys.argv[1], sys.argv[2:] or FILES
    ms = [m for f in files for m in mutants(f)]
    if os.environ.get('LIST'):
        for m in ms:
            print(m['file'], m['line'], m['kind'], m['old'][:60], '->',
                  m['new'][:60], props(m))
        print(len(ms))
        sys.exit()
    done = set()
    if os.path.exists(out):
        for l in open(out):
            m = json.loads(l)
            done.add((m['file'], m['line'], m['kind'], m['old'], m['new']))
    ms = [m for m in ms if (m['file'], m['line'], m['kind'], m['old'],
                            m['new']) not in done]
    random.Random(int(os.environ.get('MSEED', 0))).shuffle(ms)
    q = queue.Queue()
    for m in ms[:int(os.environ.get('MAX', 10 ** 6))]:
        q.put(m)
    tmp = '/tmp/mutate_work_%d' % os.getpid()
    os.makedirs(tmp)
    try:
        with open(out, 'a') as fo:
            lock = threading.Lock()
            opts = {'scales': [float(x) for x in os.environ.get(
                'SCALES', '.15').split()]}
            n = int(os.environ.get('NP', 8))
            th = [threading.Thread(target=worker, args=(
                k, q, fo, lock, tmp, opts)) for k in range(n)]
            for t in th:
                t.start()
            for t in th:
                t.join()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
