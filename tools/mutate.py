"""Systematic small changes of melodia, to look for gaps of the checks (not itself a check).

usage: mutate.py OUTDIR [--seed N] [--second]
Writes one diff per change that compiles and passes the repository's tests, named <file>-<line>-<n>.diff, plus OUTDIR/list
(path and the checks to try).  Everything happens in scratch copies of /repo.
"""
import ast
import concurrent.futures
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

FILES = {
    'src/melodia/core/tone.py': 'C01 C02 C03 C11 C06',
    'src/melodia/core/signature.py': 'C04 C05 C11 C07 C09',
    'src/melodia/core/note.py': 'C06 C07 C11 C24',
    'src/melodia/core/track.py': 'C08 C09 C10 C11 C29 C22',
    'src/melodia/io/midi.py': None,
    'src/melodia/music/chord.py': 'C23 C24 C25 C02',
    'src/melodia/processing/track.py': 'C27 C26 C29',
    'scripts/generate_chords.py': 'C25',
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq, ast.LtE, ast.GtE],
       ast.NotEq: [ast.Eq, ast.Lt, ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv, ast.Add], ast.Div: [ast.FloorDiv, ast.Mult], ast.FloorDiv: [ast.Div, ast.Mult], ast.Mod: [ast.FloorDiv],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr, ast.BitXor], ast.BitOr: [ast.BitAnd, ast.BitXor, ast.Add], ast.Pow: [ast.Mult]}


def variants(node):
    """Replacement nodes for one node."""
    out = []

    def put(**kw):
        n = copy.deepcopy(node)
        for k, v in kw.items():
            setattr(n, k, v)
        out.append(n)

    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for o in CMP.get(type(op), []):
                ops = list(node.ops)
                ops[i] = o()
                put(ops=ops)
        if len(node.ops) == 2:
            out.append(ast.Compare(node.left, node.ops[:1], node.comparators[:1]))
            out.append(ast.Compare(node.comparators[0], node.ops[1:], node.comparators[1:]))
    elif isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            put(op=o())
        out += [node.left, node.right]
    elif isinstance(node, ast.AugAssign):
        for o in BIN.get(type(node.op), []):
            put(op=o())
    elif isinstance(node, ast.BoolOp):
        put(op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for i in range(len(node.values)):
            rest = node.values[:i] + node.values[i + 1:]
            out.append(rest[0] if len(rest) == 1 else ast.BoolOp(node.op, rest))
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        out.append(node.operand)
    elif isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(ast.Constant(not v))
        elif isinstance(v, int):
            out += [ast.Constant(v + 1), ast.Constant(v - 1)] + ([ast.Constant(0)] if v not in (0, 1) else [])
        elif isinstance(v, float):
            out += [ast.Constant(v + 0.1), ast.Constant(v * 0.999)]
        elif isinstance(v, bytes) and v:
            out += [ast.Constant(bytes([v[0] ^ 1]) + v[1:]), ast.Constant(v[:-1] + bytes([v[-1] ^ 1]))]
        elif isinstance(v, str) and 0 < len(v) <= 8:
            out += [ast.Constant('xx' + v), ast.Constant('')]
    elif isinstance(node, ast.IfExp):
        out += [node.body, node.orelse]
    elif isinstance(node, ast.If):
        put(test=ast.Constant(True))
        put(test=ast.Constant(False))
        put(test=ast.UnaryOp(ast.Not(), node.test))
    elif isinstance(node, ast.While):
        put(test=ast.Constant(False))
    elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Break, ast.Continue)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            out.append(ast.Pass())
        if isinstance(node, ast.Break):
            out.append(ast.Continue())
        if isinstance(node, ast.Continue):
            out.append(ast.Break())
    if isinstance(node, ast.AugAssign):
        out.append(ast.Pass())
    if isinstance(node, ast.Return) and node.value is not None:
        put(value=ast.Constant(None))
    if isinstance(node, ast.Call):
        if len(node.args) == 1 and not node.keywords and isinstance(node.func, ast.Name) and node.func.id in ('int', 'str', 'abs', 'list', 'reversed', 'sorted', 'float'):
            out.append(node.args[0])
        if isinstance(node.func, ast.Name) and node.func.id in ('max', 'min'):
            put(func=ast.Name('min' if node.func.id == 'max' else 'max', ast.Load()))
            out += list(node.args)
        if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
            out.append(node.func.value)
        if len(node.args) == 2:
            put(args=node.args[::-1])
    return out


def changes(src):
    tree = ast.parse(src)
    lines = src.encode().splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    raw = src.encode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation is not None:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns is not None:
                skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n) if x is not n}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n) if isinstance(x, ast.Constant)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(n), id(n.value)}
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, 'lineno'):
            continue
        a, b = starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
        indent = ' ' * n.col_offset
        for v in variants(n):
            try:
                text = ast.unparse(ast.fix_missing_locations(copy.deepcopy(v)))
            except Exception:       # noqa: BLE001
                continue
            if isinstance(v, ast.stmt):
                text = text.replace('\n', '\n' + indent)
            elif not isinstance(v, (ast.Constant, ast.Name, ast.Call, ast.Attribute)):
                text = '(' + text + ')'
            new = raw[:a] + text.encode() + raw[b:]
            if new != raw:
                try:
                    if ast.dump(ast.parse(new)) != ast.dump(tree):
                        yield n.lineno, new.decode()
                except SyntaxError:
                    pass


def filter_job(args):
    file, line, i, new, out = args
    tmp = tempfile.mkdtemp(prefix='mut.')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        with open(os.path.join(repo, file), 'w') as f:
            f.write(new)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo + '/src', PYTHONHASHSEED='0')
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=repo, env=env, timeout=60,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return None
        if r.returncode != 0:
            return None
        if file.startswith('src') and subprocess.run([sys.executable, '-c', 'import melodia.core, melodia.io.midi, melodia.music.chord, melodia.processing.track'],
                                                     cwd=repo, env=env, stderr=subprocess.DEVNULL).returncode:
            return None
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout
        path = os.path.join(out, '%s-%04d-%d.diff' % (file.replace('/', '_').replace('.py', ''), line, i))
        with open(path, 'wb') as f:
            f.write(diff)
        return path, file, line
    finally:
        shutil.rmtree(tmp)


def main():
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    jobs = []
    for file in FILES:
        src = open(os.path.join('/repo', file)).read()
        vs = list(changes(src))
        if file.endswith('chord.py'):
            vs = [v for v in vs if v[0] < 45] + random.Random(1).sample([v for v in vs if v[0] >= 45], 25)
        jobs += [(file, line, i, new, out) for i, (line, new) in enumerate(vs)]
    print(len(jobs), 'changes')
    src = open('/repo/src/melodia/io/midi.py').read().splitlines()
    split = next(i for i, l in enumerate(src, 1) if l.startswith('_event_lengths'))
    tail = next(i for i, l in enumerate(src, 1) if l.startswith('def dump('))
    with concurrent.futures.ThreadPoolExecutor(8) as ex, open(os.path.join(out, 'list'), 'w') as f:
        kept = 0
        for r in ex.map(filter_job, jobs):
            if r:
                kept += 1
                path, file, line = r
                checks = FILES[file] or ('C13 C12 C14 C20 C15 C22 C21 C29' if 45 < line < split else 'C22 C20 C21 C29' if line >= tail else 'C16 C17 C18 C19 C14 C28 C21 C22')
                f.write(f'{path} {checks}\n')
                f.flush()
    print(kept, 'pass the tests')


if __name__ == '__main__':
    main()
