"""Mutation campaign: plants one small random change at a time in a scratch copy of /repo and runs the checks on it.

usage: mutate.py OUT.jsonl N SEED [file ...]      (development aid only; no check uses it)
A mutant which the repository's stable tests notice is skipped; the others run through the checks mapped to the file.
"""
import ast, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get('MUT_VERIF') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'archetypes.py': 'C19 C15 C16 C05 C18 C14 C25 C27',
    'constants.py': 'C06 C15',
    'fitz.py': 'C23 C19 C01 C02 C14 C05 C20 C09',
    'igm.py': 'C06 C15 C01 C05',
    'priors.py': 'C07',
    'rebin.py': 'C04 C15 C01 C05',
    'results.py': 'C12 C14 C13',
    'targets.py': 'C10 C02 C24 C17 C15 C14 C18 C05 C20',
    'templates.py': 'C16 C15 C01 C02 C17 C14 C04 C05 C03 C25 C09',
    'utils.py': 'C17 C16 C14 C10 C24 C18 C04 C02',
    'zfind.py': 'C08 C02 C26 C14 C21 C19 C12 C03 C05 C25 C20',
    'zscan.py': 'C03 C01 C02 C05 C23 C19 C17 C15 C04 C10 C20',
    'zwarning.py': 'C26',
    'external/desi.py': 'C24 C14 C15 C25 C27 C21 C12 C13',
    'external/boss.py': 'C18 C27',
    'bin/wrap-redrock': 'C22',
    'plotspec.py': 'C28',
    'bin/rrplot': 'C28',
    'bin/rrconvertSDSStemplates': 'C29',
    'bin/rrqsotemplate': 'C29',
    'bin/rrgaltemplate': 'C29',
    'bin/rrstartemplate': 'C29',
    'bin/rrstarwdtemplate': 'C29',
    'bin/install_redrock_templates': 'C29',
    'bin/rrdesi_mpi': 'C14',
    'bin/rrboss_mpi': 'C18',
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
QUIET = ('print', 'log', 'add_argument', 'ArgumentParser', 'RuntimeWarning', 'warn', 'info', 'debug', 'flush', 'elapsed', 'print_exception', 'format_exception')


def quiet(n):
    if isinstance(n, ast.Call):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        return nm in QUIET
    return isinstance(n, (ast.Raise, ast.Assert))


def sites(tree, top=False):
    """(kind, path-number) of every place a mutation can be made; path number = index in a stable walk"""
    out = []

    def walk(n, skip):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body[0].skip = True
        if quiet(n) or getattr(n, 'skip', False):
            return
        if isinstance(n, ast.Compare):
            out.append(('cmp', n))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr if False else ast.JoinedStr):
            out.append(('bin', n))
        elif isinstance(n, ast.BoolOp):
            out.append(('bool', n)); out.append(('drop', n))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            out.append(('un', n))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None), type(...))):
            out.append(('const', n))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append(('slice', n))
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            out.append(('cond', n))
        elif isinstance(n, ast.Call):
            if n.keywords:
                out.append(('kw', n))
            if len(n.args) >= 2:
                out.append(('swap', n))
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if nm in ('min', 'max', 'minimum', 'maximum', 'any', 'all', 'argmin', 'argmax', 'zeros', 'ones', 'isfinite', 'copy', 'sorted', 'sort'):
                out.append(('fn', n))
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not quiet(n.value)) or (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)) or isinstance(n, (ast.Break, ast.Continue)):
            out.append(('del', n))
        for c in ast.iter_child_nodes(n):
            walk(c, skip)
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) or (top and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))):
            walk(n, False)
    return out


def apply(tree, kind, n, rnd):
    if kind == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == 'bin':
        n.op = BIN[type(n.op)]()
    elif kind == 'bool':
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == 'drop':
        n.values.pop(rnd.randrange(len(n.values)))
        if len(n.values) == 1:
            n.values.append(n.values[0])
    elif kind == 'un':
        n.op = ast.UAdd() if not isinstance(n.op, ast.Not) else n.op
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == 'const':
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + rnd.choice([1, -1]) if isinstance(v, int) else v * rnd.choice([1.1, .5, 2.]) if v else 1e-3
    elif kind == 'slice':
        s = n.slice
        one = ast.Constant(1)
        w = rnd.choice(['lower', 'upper'])
        if w == 'lower':
            s.lower = ast.BinOp(s.lower, ast.Add(), one) if s.lower is not None else ast.Constant(1)
        else:
            s.upper = ast.BinOp(s.upper, ast.Sub(), one) if s.upper is not None else ast.Constant(-1)
    elif kind == 'cond':
        n.test = ast.Constant(rnd.choice([True, False])) if rnd.random() < .5 else ast.UnaryOp(ast.Not(), n.test)
    elif kind == 'kw':
        n.keywords.pop(rnd.randrange(len(n.keywords)))
    elif kind == 'swap':
        i = rnd.randrange(len(n.args) - 1)
        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
    elif kind == 'fn':
        M = dict(min='max', max='min', minimum='maximum', maximum='minimum', any='all', all='any', argmin='argmax', argmax='argmin', zeros='ones', ones='zeros', isfinite='isnan', copy='view', sorted='list', sort='view')
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
        if isinstance(n.func, ast.Attribute):
            n.func.attr = M[nm]
        else:
            n.func.id = M[nm]
    elif kind == 'del':
        for p in ast.walk(tree):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
                    return


def one(job):
    rel, kind, idx, seed = job
    path = rel if rel.startswith('bin/') else 'py/redrock/' + rel
    src = open('/repo/' + path).read()
    lines = src.splitlines(True)
    tree = ast.parse(src)
    S = sites(tree, rel.startswith('bin/rr'))
    kind, node = S[idx]
    rnd = random.Random(seed)
    # the smallest enclosing statement is rewritten in place, so that the rest of the file keeps its layout
    stmts = [s for s in ast.walk(tree) if isinstance(s, ast.stmt) and any(x is node for x in ast.walk(s)) and not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
    if not stmts:      # in the signature of a function
        return dict(file=path, kind=kind, idx=idx, seed=seed, result='signature')
    st = min(stmts, key=lambda s: s.end_lineno - s.lineno)
    before = ast.unparse(st)
    l0, l1 = st.lineno, st.end_lineno
    if kind == 'del':
        new = ast.Pass()
    else:
        apply(tree, kind, node, rnd)
        new = st
    ast.fix_missing_locations(tree)
    after = ast.unparse(new)
    res = dict(file=path, line=l0, kind=kind, before=before[:300], after=after[:300], idx=idx, seed=seed)
    if before == after:
        return dict(res, result='same')
    ind = ' ' * st.col_offset
    lead = lines[l0 - 1][:st.col_offset]
    if lead.strip():    # elif
        return dict(res, result='elif')
    body = ''.join(ind + x + '\n' for x in after.splitlines())
    text = ''.join(lines[:l0 - 1]) + body + ''.join(lines[l1:])
    try:
        ast.parse(text)
    except SyntaxError:
        return dict(res, result='syntax')
    w = f'/tmp/mut/w{os.getpid()}-{seed}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
    try:
        open(f'{w}/{path}', 'w').write(text)
        env = dict(os.environ, PYTHONPATH=f'{w}/py', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        if not rel.startswith('bin/'):
            stable = [x.split('.test.')[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
            t = []
            for x in stable:
                m, n = x.split('.', 1)
                t.append(f'py/redrock/test/{m}.py::' + n.replace('.', '::'))
            try:
                p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=120'] + t, cwd=w, env=env, capture_output=True, text=True, timeout=300)
                if p.returncode:
                    return dict(res, result='tests', out=p.stdout[-200:])
            except subprocess.TimeoutExpired:
                return dict(res, result='tests')
        ran = {}
        for c in FILES[rel].split():
            try:
                p = subprocess.run(['timeout', '-k', '5', '400', 'bash', f'{V}/check.sh', c, 'quick'], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1'), capture_output=True, text=True, timeout=450)
                ran[c] = p.returncode
                last = (p.stdout + p.stderr).strip().splitlines()[-1:]
            except subprocess.TimeoutExpired:
                ran[c] = 'timeout'
            if ran[c] == 1:
                v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
                return dict(res, result='caught', by=c, ran=ran, out=p.stdout[-300:])
        return dict(res, result='other' if any(v not in (0,) for v in ran.values()) else 'SURVIVED', ran=ran)
    except Exception as e:
        return dict(res, result='error', out=repr(e)[:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(FILES)
    rnd = random.Random(seed)
    jobs = []
    for f in files:
        path = '/repo/' + (f if f.startswith('bin/') else 'py/redrock/' + f)
        S = sites(ast.parse(open(path).read()), f.startswith('bin/rr'))
        for i, (k, n) in enumerate(S):
            jobs.append((f, k, i, rnd.randrange(10**9)))
    rnd.shuffle(jobs)
    jobs = jobs[:N]
    nw = int(os.environ.get('MUT_WORKERS', '6'))
    with ThreadPoolExecutor(nw) as ex, open(out, 'a') as fx:
        for r in ex.map(one, jobs):
            fx.write(json.dumps(r) + '\n')
            fx.flush()


if __name__ == '__main__':
    main()
