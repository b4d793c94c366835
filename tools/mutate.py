"""
Development aid: make small source changes to one file of a scratch copy of
the code, and list those that no check notices.

usage: mutate.py FILE OUT [--jobs N] [--only OPS] [--lines A-B] [--checks P01,P02]
"""
import ast
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

SCRATCH = '/tmp/mut'
COST = {}

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '*', ast.LShift: '>>', ast.RShift: '<<',
       ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|', ast.Div: '*'}


def mutants(src):
    """(line, operator, description, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    b = src.encode()
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def put(n, text):
        a, z = span(n)
        return (b[:a] + text.encode() + b[z:]).decode()

    def seg(n):
        a, z = span(n)
        return b[a:z].decode()

    skip = set()
    for n in ast.walk(tree):
        # docstrings, annotations, asserts and error messages are of no interest
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.arg) and n.annotation:
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, (ast.FunctionDef,)) and n.returns:
            skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, 'lineno'):
            continue
        L = n.lineno
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            yield L, 'cmp', put(n, '(%s %s %s)' % (seg(n.left), CMP[t], seg(n.comparators[0])))
            if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                yield L, 'cmp2', put(n, '(%s %s %s)' % (seg(n.left), {ast.Lt: '>', ast.LtE: '>=', ast.Gt: '<', ast.GtE: '<='}[t], seg(n.comparators[0])))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                continue
            yield L, 'bin', put(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)))
            yield L, 'binleft', put(n, '(%s)' % seg(n.left))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield L, 'bool', put(n, str(not n.value))
            elif isinstance(n.value, int):
                yield L, 'int+', put(n, str(n.value + 1))
                if n.value:
                    yield L, 'int-', put(n, '(%d)' % (n.value - 1))
            elif isinstance(n.value, str) and n.value and n.value[0] in '<>=' and len(n.value) < 30:
                # structure formats
                v = n.value
                for x, y in (('H', 'h'), ('h', 'H'), ('I', 'i'), ('i', 'I'), ('B', 'b'), ('b', 'B')):
                    if x in v[1:]:
                        yield L, 'fmt', put(n, repr(v[0] + v[1:].replace(x, y, 1)))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield L, 'boolop', put(n, '(' + op.join('(%s)' % seg(v) for v in n.values) + ')')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                yield L, 'booldrop', put(n, '(' + (' or ' if isinstance(n.op, ast.Or) else ' and ').join('(%s)' % seg(v) for v in rest) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            if not isinstance(n.operand, ast.Constant):
                yield L, 'unary', put(n, '(%s)' % seg(n.operand))
        elif isinstance(n, (ast.If, ast.While)):
            yield L, 'if', put(n.test, '(not (%s))' % seg(n.test))
            if isinstance(n, ast.If):
                yield L, 'iftrue', put(n.test, 'True')
                yield L, 'iffalse', put(n.test, 'False')
        elif isinstance(n, ast.IfExp):
            yield L, 'ifexp', put(n, '(%s)' % seg(n.body))
            yield L, 'ifexp', put(n, '(%s)' % seg(n.orelse))
        elif isinstance(n, (ast.AugAssign, ast.Raise, ast.Break, ast.Continue)) or \
                isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            yield L, 'delete', put(n, 'pass')
            if isinstance(n, ast.Break):
                yield L, 'break', put(n, 'continue')
        elif isinstance(n, ast.Assign):
            if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                yield L, 'delete', put(n, 'pass')
        elif isinstance(n, ast.Return) and n.value is not None:
            yield L, 'return', put(n, 'return None')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ('bytes', 'bytearray', 'list', 'set', 'dict', 'reversed', 'sorted', 'min', 'max', 'int', 'bool', 'tuple') and n.args:
                a = n.args[0]
                if isinstance(a, ast.GeneratorExp) or isinstance(a, ast.Starred):
                    continue
                yield L, 'call', put(n, '(%s)' % seg(a))
                if n.func.id in ('min', 'max'):
                    yield L, 'call', put(n.func, 'max' if n.func.id == 'min' else 'min')
                    if len(n.args) > 1:
                        yield L, 'call', put(n, '(%s)' % seg(n.args[1]))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('rstrip', 'lstrip', 'strip', 'copy', 'lower', 'upper'):
                yield L, 'call', put(n, seg(n.func.value))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'add', 'update', 'insert'):
                pass
            for k in n.keywords:
                if k.arg:
                    a, z = span(k)
                    # drop one keyword argument
                    rest = [seg(x) for x in n.args] + [seg(x) if x.arg else '**' + seg(x.value) for x in n.keywords if x is not k]
                    if any(isinstance(x, ast.GeneratorExp) for x in n.args):
                        continue
                    yield L, 'kwdrop', put(n, '%s(%s)' % (seg(n.func), ', '.join(rest)))


def checksFor(path):
    out = []
    for line in open('/verif/properties.jsonl'):
        d = json.loads(line)
        text = json.dumps(d)
        if path in text:
            out.append(d['id'])
    return out


def runCheck(worker, pid, repo, timeout=240):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_JOBS='1', VERIF_TIER='quick', VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run(['bash', SCRATCH + '/verif%d/run.sh' % worker, pid], cwd=SCRATCH + '/verif%d' % worker, env=env,
                           capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout[-600:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def runTests(repo):
    return subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=repo,
                          env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('out')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('--lines')
    ap.add_argument('--checks')
    ap.add_argument('--step', type=int, default=1)
    a = ap.parse_args()
    path = 'ndspy/' + a.file
    src = open('/repo/' + path).read()
    pids = a.checks.split(',') if a.checks else checksFor(path)
    try:
        cost = json.load(open(SCRATCH + '/cost.json'))
    except OSError:
        cost = {}
    pids.sort(key=lambda p: cost.get(p, 50))
    todo, seen = [], {src}
    for L, op, new in mutants(src):
        if a.only and op not in a.only.split(','):
            continue
        if a.lines and not int(a.lines.split('-')[0]) <= L <= int(a.lines.split('-')[1]):
            continue
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        todo.append((L, op, new))
    todo.sort(key=lambda t: t[0])
    todo = todo[::a.step]
    print(len(todo), 'changes', pids, flush=True)
    free = list(range(a.jobs))
    for w in free:
        shutil.rmtree(SCRATCH + '/verif%d' % w, ignore_errors=True)
        shutil.rmtree(SCRATCH + '/repo%d' % w, ignore_errors=True)
        subprocess.run(['cp', '-r', '/verif', SCRATCH + '/verif%d' % w], check=True)
        shutil.rmtree(SCRATCH + '/verif%d/.git' % w)
        os.makedirs(SCRATCH + '/repo%d' % w)
        subprocess.run(['cp', '-r', '/repo/ndspy', '/repo/tests', '/repo/test_files', SCRATCH + '/repo%d/' % w], check=True)

    if runTests(SCRATCH + '/repo0'):
        sys.exit('the tests do not pass on the unchanged tree')

    def work(item):
        L, op, new = item
        w = free.pop()
        try:
            repo = SCRATCH + '/repo%d' % w
            f = repo + '/' + path
            open(f, 'w').write(new)
            order = list(pids)
            for p in order:
                code, out = runCheck(w, p, repo)
                if code == 'timeout':
                    continue
                if code != 0:
                    if code == 1:
                        # what catches one change often catches the next
                        hits[p] = hits.get(p, 0) + 1
                    return L, op, p, code
            r = runTests(repo)
            return L, op, None if r == 0 else 'tests', r
        finally:
            open(SCRATCH + '/repo%d/' % w + path, 'w').write(src)
            free.append(w)

    hits = {}
    t = time.time()
    old = src.split('\n')
    with open(a.out, 'w') as out, cf.ThreadPoolExecutor(a.jobs) as ex:
        futs = {ex.submit(work, i): i for i in todo}
        for n, fu in enumerate(cf.as_completed(futs)):
            L, op, by, code = fu.result()
            new = futs[fu][2].split('\n')
            if by is None or code not in (0, 1) and by != 'tests':
                diff = [(x, y) for x, y in zip(old, new) if x != y][:1] or [('', '')]
                out.write('%d %s %s %s\n    - %s\n    + %s\n' % (L, op, by, code, diff[0][0].strip(), diff[0][1].strip()))
                out.flush()
    print('%.0f s' % (time.time() - t), hits, flush=True)


main()
