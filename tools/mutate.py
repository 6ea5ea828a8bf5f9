"""python3 tools/mutate.py PROP...: mutation test of the proofs.  Every simple edit of the functions under contract (one operator, constant,
condition or statement) is verified on a scratch copy, without the concrete search.  Prints the edits that every obligation survives: each is either
equivalent with respect to the property, or shows a weak contract or an unsound step of the engine."""
import ast
import copy
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/veriftools/pyvenv/bin/python3'
sys.path.insert(0, VERIF)


def targets(prop):
    p = subprocess.run([PY, '-B', '-c', 'import sys,json\nsys.path.insert(0,%r)\nfrom specs import %s as m\n'
                        'print(json.dumps([[t.name,t.functions,t.timeout] for t in m.TARGETS]))' % (VERIF, prop.lower())], capture_output=True, text=True)
    return json.loads(p.stdout.strip().splitlines()[-1])


def find(q):
    parts = q.split('.')
    for n in range(len(parts) - 1, 0, -1):
        f = '/repo/codeprep/' + '/'.join(parts[:n]) + '.py'
        if os.path.exists(f):
            return f, parts[n:]
        f = '/repo/codeprep/' + '/'.join(parts[:n]) + '/__init__.py'
        if os.path.exists(f):
            return f, parts[n:]
    return None


def node_of(tree, names):
    cur = tree
    for nm in names:
        for ch in cur.body:
            if isinstance(ch, (ast.ClassDef, ast.FunctionDef)) and ch.name == nm:
                cur = ch
                break
        else:
            return None
    return cur


CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Mod: ast.FloorDiv, ast.FloorDiv: ast.Mod}


def edits(fn):
    """yield (description, mutated function)"""
    nodes = [n for n in ast.walk(fn)]

    def clone():
        c = copy.deepcopy(fn)
        return c, [n for n in ast.walk(c)]
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.arg) and n.annotation is not None:
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.Expr) and ast.unparse(n).startswith(('logger', 'print')):
            skip |= {id(x) for x in ast.walk(n)}
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for op in CMP.get(type(n.ops[0]), []):
                c, ns = clone()
                ns[i].ops[0] = op()
                yield '%d: %s -> %s' % (ln, ast.unparse(n), ast.unparse(ns[i])), c
        elif isinstance(n, ast.BoolOp):
            c, ns = clone()
            ns[i].op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield '%d: %s -> %s' % (ln, ast.unparse(n), ast.unparse(ns[i])), c
            for j in range(len(n.values)):
                c, ns = clone()
                del ns[i].values[j]
                yield '%d: %s -> %s' % (ln, ast.unparse(n), ast.unparse(ns[i])), c
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            c, ns = clone()
            ns[i].op = BIN[type(n.op)]()
            yield '%d: %s -> %s' % (ln, ast.unparse(n), ast.unparse(ns[i])), c
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            c, ns = clone()
            ns[i].operand = ast.UnaryOp(ast.Not(), ns[i].operand)
            yield '%d: %s -> not not' % (ln, ast.unparse(n)), c
        elif isinstance(n, ast.Constant) and n.value is not None and not (isinstance(n.value, str) and len(n.value) > 30):
            v = n.value
            for w in ([not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v + 'x'] if isinstance(v, str) else []):
                c, ns = clone()
                ns[i].value = w
                yield '%d: %r -> %r' % (ln, v, w), c
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            c, ns = clone()
            ns[i].test = ast.UnaryOp(ast.Not(), ns[i].test)
            yield '%d: negate %s' % (ln, ast.unparse(n.test)), c
            if isinstance(n, ast.If):
                c, ns = clone()
                ns[i].test = ast.Constant(False)
                yield '%d: never %s' % (ln, ast.unparse(n.test)), c
                c, ns = clone()
                ns[i].test = ast.Constant(True)
                yield '%d: always %s' % (ln, ast.unparse(n.test)), c
        elif isinstance(n, ast.Call) and len(n.args) >= 1 and isinstance(n.func, (ast.Name, ast.Attribute)):
            for j in range(len(n.args)):
                if isinstance(n.args[j], ast.Starred):
                    continue
                if len(n.args) > j + 1:
                    c, ns = clone()
                    ns[i].args[j], ns[i].args[j + 1] = ns[i].args[j + 1], ns[i].args[j]
                    yield '%d: swap arguments %s' % (ln, ast.unparse(n)), c
            if len(n.args) == 1 and not n.keywords:
                c, ns = clone()
                par = [(p, f, k) for p in ns for f, v in ast.iter_fields(p) for k, x in enumerate(v if isinstance(v, list) else [v]) if x is ns[i]]
                if par:
                    p, f, k = par[0]
                    v = getattr(p, f)
                    if isinstance(v, list):
                        v[k] = ns[i].args[0]
                    else:
                        setattr(p, f, ns[i].args[0])
                    yield '%d: %s -> argument' % (ln, ast.unparse(n)), c
        elif isinstance(n, (ast.Slice,)):
            for f in ('lower', 'upper'):
                if getattr(n, f) is not None:
                    c, ns = clone()
                    setattr(ns[i], f, None)
                    yield '%d: [%s] drop %s' % (ln, ast.unparse(n), f), c
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for j, st in enumerate(b):
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(st, ast.Expr) and ast.unparse(st).startswith(('logger', 'print')):
                        continue
                    c, ns = clone()
                    getattr(ns[i], f)[j] = ast.copy_location(ast.Pass(), st)
                    yield '%d: drop %s' % (st.lineno, ast.unparse(st).split('\n')[0]), c
                    if isinstance(st, (ast.Break, ast.Continue)):
                        c, ns = clone()
                        getattr(ns[i], f)[j] = ast.Continue() if isinstance(st, ast.Break) else ast.Break()
                        yield '%d: %s swapped' % (st.lineno, ast.unparse(st)), c


def main():
    jobs = []
    only = os.environ.get('ONLY', '')
    for prop in sys.argv[1:]:
        ts = targets(prop)
        done = set()
        for name, fns, to in ts:
            for q in fns:
                if q in done or (only and only not in q):
                    continue
                done.add(q)
                r = find(q)
                if r is None:
                    print('?', q)
                    continue
                f, names = r
                src = open(f).read()
                fn = node_of(ast.parse(src), names)
                if fn is None or not isinstance(fn, ast.FunctionDef):
                    print('?', q)
                    continue
                lines = src.split('\n')
                for desc, m in edits(fn):
                    ast.fix_missing_locations(m)
                    try:
                        txt = ast.unparse(m)
                    except Exception:
                        continue
                    a, b = (fn.decorator_list[0].lineno if fn.decorator_list else fn.lineno) - 1, fn.end_lineno
                    out = lines[:a] + [' ' * fn.col_offset + l if l else l for l in txt.split('\n')] + lines[b:]
                    out = '\n'.join(out)
                    try:
                        compile(out, f, 'exec')
                    except SyntaxError:
                        continue
                    jobs.append((prop, q, f, desc, out, [t for t in ts if True]))
    print(len(jobs), 'edits', flush=True)
    stat = {}

    def run(j):
        prop, q, f, desc, out, ts = j
        tmp = tempfile.mkdtemp(prefix='mut')
        try:
            shutil.copytree('/repo', tmp + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', 'test*', 'docs'))
            open(f.replace('/repo/', tmp + '/r/'), 'w').write(out)
            ts2 = sorted(ts, key=lambda t: q not in t[1])
            alive = True
            for name, fns, to in ts2:
                o = tmp + '/o.json'
                if os.path.exists(o):
                    os.unlink(o)
                try:
                    subprocess.run([PY, '-B', VERIF + '/tools/vrun.py', 'specs.' + prop.lower(), name, tmp + '/r', o], timeout=to,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    r = json.load(open(o))
                    good = r['status'] == 'ok' and all(x['status'] == 'valid' for x in r['obligations'])
                except Exception:
                    good = False
                if not good:
                    alive = False
                    break
            stat[alive] = stat.get(alive, 0) + 1
            if alive:
                print('ALIVE', prop, q, desc, flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        list(ex.map(run, jobs))
    print(stat)


main()
