#!/usr/bin/env python3
"""Generate small source mutants of kinisi and find those the stable tests accept.

mutants.py gen OUT.json [--seed N] [--n N]      list mutants
mutants.py tests OUT.json -j N                  run the stable tests on each (in scratch copies), record survivors
mutants.py checks OUT.json C06,C09,...          run the quick checks on the survivors, record who catches them
"""
import ast, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PLUG = '/tmp/mut/plug'  # stopstable.py: ends the run with 7 when a stable test fails
FILES = ['analyzer.py', 'arrhenius.py', 'conductivity_analyzer.py', 'diffusion.py', 'diffusion_analyzer.py',
         'jump_diffusion_analyzer.py', 'parser.py']
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult,
       ast.FloorDiv: ast.Div}


def gen():
    out = []
    for f in FILES:
        src = open(f'{REPO}/kinisi/{f}').read()
        tree = ast.parse(src)
        lines = src.split('\n')
        off = [0]
        for l in lines:
            off.append(off[-1] + len(l.encode()) + 1)
        raw = src.encode()

        def span(n):
            return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

        def add(n, new, what, where):
            a, b = span(n)
            out.append(dict(file=f, a=a, b=b, new=new, old=raw[a:b].decode(), what=what, where=where, line=n.lineno))

        def visit(n, where):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                where = (where + '.' if where else '') + n.name
                body = n.body
                if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    body = body[1:]
                for d in (n.args.defaults if isinstance(n, ast.FunctionDef) else []):
                    if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)) and not isinstance(d.value, bool):
                        add(d, repr(d.value * 2), 'default', where)
                for c in body:
                    visit(c, where)
                return
            if where:
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    m = ast.Compare(n.left, [CMP[type(n.ops[0])]()], n.comparators)
                    add(n, '(' + ast.unparse(m) + ')', 'cmp', where)
                if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                    m = ast.BinOp(n.left, BIN[type(n.op)](), n.right)
                    add(n, '(' + ast.unparse(m) + ')', 'bin', where)
                if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                    add(n, repr(not n.value), 'bool', where)
                elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                    add(n, repr(n.value + 1), 'const', where)
                if isinstance(n, ast.Slice) and n.step is not None:
                    s = ast.unparse(ast.Slice(n.lower, n.upper, None))
                    add(n, s or ':', 'step', where)
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and n.lineno == n.end_lineno and \
                        not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    add(n, 'pass', 'del', where)
                if isinstance(n, ast.If):
                    add(n.test, 'False', 'iffalse', where)
                    add(n.test, 'True', 'iftrue', where)
                if isinstance(n, ast.Call):
                    for k in n.keywords:
                        if k.arg and len(n.keywords) > 0:
                            m = ast.Call(n.func, n.args, [q for q in n.keywords if q is not k])
                            add(n, ast.unparse(m), 'kw-' + k.arg, where)
                    if len(n.args) == 1 and not n.keywords and ast.unparse(n.func) in ('np.array', 'np.copy', 'list', 'int'):
                        add(n, ast.unparse(n.args[0]), 'unwrap', where)
            for c in ast.iter_child_nodes(n):
                visit(c, where)

        for c in tree.body:
            visit(c, '')
    for i, m in enumerate(out):
        m['id'] = i
    return out


def scratch(m, w):
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', REPO, w], check=True)
    p = f'{w}/kinisi/{m["file"]}'
    raw = open(p, 'rb').read()
    new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
    open(p, 'wb').write(new)
    try:
        compile(new, p, 'exec')
    except SyntaxError:
        return False
    return True


def env(w):
    return dict(os.environ, MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
                PYTHONHASHSEED='0', PYTHONPATH=w)


STABLE = None


def tests(m):
    w = f'/tmp/mut/w{m["id"]}'
    try:
        if not scratch(m, w):
            return 'syntax'
        e = env(w)
        e.update(PYTHONPATH=w + ':' + PLUG, KILLED=w + '/killed')
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'stopstable', '-p', 'no:cacheprovider',
                            '-p', 'no:xdist', '--timeout=300', '--continue-on-collection-errors', 'kinisi/tests'], cwd=w, env=e, capture_output=True,
                           text=True, timeout=900)
        return 'survives' if p.returncode in (0, 1) else 'killed'
    except subprocess.TimeoutExpired:
        return 'killed'
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    global STABLE
    cmd, path = sys.argv[1:3]
    if cmd == 'gen':
        ms = gen()
        random.Random(1).shuffle(ms)
        json.dump(ms, open(path, 'w'), indent=0)
        print(len(ms))
        return
    ms = json.load(open(path))
    if cmd == 'tests':
        j = int(sys.argv[4])
        s = json.load(open('/opt/vp/BASELINE.json'))['stable']
        STABLE = [x for x in s]
        todo = [m for m in ms if 'tests' not in m]

        def one(m):
            m['tests'] = tests(m)
            json.dump(ms, open(path + '.tmp', 'w'), indent=0)
            return m
        with ThreadPoolExecutor(j) as ex:
            for k, m in enumerate(ex.map(one, todo)):
                print(k, m['id'], m['file'], m['line'], m['what'], m['tests'], flush=True)
                json.dump(ms, open(path, 'w'), indent=0)
    if cmd == 'checks':
        ids = sys.argv[3].split(',')
        only = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
        for m in ms:
            if m.get('tests') != 'survives' or m.get('caught'):
                continue
            if only and not only.search(f'{m["file"]}:{m["where"]}'):
                continue
            w = f'/tmp/mut/c{m["id"]}'
            try:
                scratch(m, w)
                for p in ids:
                    if p in m.get('quiet', []):
                        continue
                    e = dict(os.environ, KINISI_SIM_REPO=w, VERIF_SEED='1', VERIF_TIER='quick')
                    t = time.time()
                    r = subprocess.run([V + '/check.py', p], env=e, cwd=V, capture_output=True, text=True)
                    if r.returncode == 1:
                        m['caught'] = p
                        break
                    m.setdefault('quiet', []).append(p)
                    if r.returncode:
                        m.setdefault('odd', []).append((p, r.returncode))
            finally:
                shutil.rmtree(w, ignore_errors=True)
            print(m['id'], m['file'], m['line'], m['where'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:60]),
                  m.get('caught', 'MISSED'), flush=True)
            json.dump(ms, open(path, 'w'), indent=0)


main()
