"""mutate.py OUT [file-substring]: single-edit mutants of the sources, judged by the 20 stable tests and then
by the checks, in scratch copies under /tmp/mut.  Development tool: lists the mutants no check reports."""
import ast, copy, glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PAR = int(os.environ.get('PAR', '4'))
ORDER = {'lrprop': 'C02 C13 C03 C01 C06 C20 C04 C10', 'adiff': 'C02 C13 C04 C01 C20', 'aknfe': 'C16 C02 C20',
         'fht': 'C16 C02', 'ahd': 'C16 C02', 'h0f': 'C16 C02', 'curv': 'C16 C08', 'alos': 'C02 C13 C20',
         'ascat': 'C02 C13 C04 C01', 'qerf': 'C15', 'qerfi': 'C15 C18', 'qtile': 'C12', 'dlthx': 'C12 C13 C05',
         'zlsq1': 'C12 C13', 'hzns': 'C11 C10 C13', 'qlra': 'C02 C07 C06 C04 C20', 'qlrpfl': 'C13 C07 C04 C10 C05',
         'qlrps': 'C17 C20', 'avar': 'C08 C07 C06 C09 C05 C04', 'terrain_module': 'C19 C21'}
SCRIPTS = 'C18 C21 C19'
# STAGE=1 (the default): only these, on the small spaces; what is left is looked at by hand, then STAGE=2 takes all
FIRST = {'lrprop': 'C13 C06 C02', 'adiff': 'C22 C13 C02', 'aknfe': 'C16 C13', 'fht': 'C16 C02', 'ahd': 'C16 C02', 'h0f': 'C16 C02',
         'curv': 'C16 C08', 'alos': 'C22 C13 C02', 'ascat': 'C22 C13 C02', 'qerf': 'C15', 'qerfi': 'C15', 'qtile': 'C12',
         'dlthx': 'C12 C13', 'zlsq1': 'C12 C13', 'hzns': 'C11 C13', 'qlra': 'C07 C02', 'qlrpfl': 'C13 C07', 'qlrps': 'C17',
         'avar': 'C06 C08 C07 C09', 'terrain_module': 'C19'}
STAGE = os.environ.get('STAGE', '1')


class M(ast.NodeTransformer):
    """enumerates the mutation sites; applies number `target`"""
    def __init__(self, target=None):
        self.n, self.target, self.what = 0, target, None
    def hit(self, node, what):
        k = self.n; self.n += 1
        if k == self.target:
            self.what = 'line %s: %s' % (getattr(node, 'lineno', '?'), what); return True
        return False
    def body(self, stmts):
        out = []
        for s in stmts:
            keep = True
            if isinstance(s, (ast.Assign, ast.AugAssign)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                src = ast.unparse(s)
                if not src.startswith('print('):
                    if self.hit(s, 'delete ' + src[:70]): keep = False
            if isinstance(s, ast.If):
                if self.hit(s, 'cond true ' + ast.unparse(s.test)[:60]): s.test = ast.Constant(True)
                elif self.hit(s, 'cond false ' + ast.unparse(s.test)[:60]): s.test = ast.Constant(False)
            out.append(s if keep else ast.copy_location(ast.Pass(), s))
        return out
    def generic_visit(self, node):
        for f in ('body', 'orelse'):
            if isinstance(getattr(node, f, None), list):
                setattr(node, f, self.body(getattr(node, f)))
        return super().generic_visit(node)
    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant): return node
        if isinstance(node.value, ast.Call) and ast.unparse(node).startswith('print('): return node
        return self.generic_visit(node)
    def visit_Compare(self, node):
        self.generic_visit(node)
        op = type(node.ops[0])
        for new in {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
                    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}.get(op, []):
            if self.hit(node, '%s -> %s in %s' % (op.__name__, new.__name__, ast.unparse(node)[:60])):
                node.ops = [new()]
        return node
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit(node, 'and/or in ' + ast.unparse(node)[:60]):
            node.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        for i in range(len(node.values)):
            if self.hit(node, 'drop operand %d of %s' % (i, ast.unparse(node)[:60])):
                node.values = node.values[:i] + node.values[i+1:] ; break
        return node
    def visit_BinOp(self, node):
        self.generic_visit(node)
        for new in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
                    ast.Pow: [ast.Mult]}.get(type(node.op), []):
            if self.hit(node, 'op %s -> %s in %s' % (type(node.op).__name__, new.__name__, ast.unparse(node)[:60])):
                node.op = new()
        return node
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.hit(node, 'drop unary in ' + ast.unparse(node)[:60]): return node.operand
        return node
    def visit_Call(self, node):
        self.generic_visit(node)
        name = ast.unparse(node.func)
        if name in ('min', 'max'):
            if self.hit(node, name + ' swapped in ' + ast.unparse(node)[:60]):
                node.func = ast.Name('min' if name == 'max' else 'max', ast.Load())
            for i in range(len(node.args) if len(node.args) > 1 else 0):
                if self.hit(node, 'only argument %d of %s' % (i, ast.unparse(node)[:60])): return node.args[i]
        if name in ('abs', 'int', 'round', 'sorted', 'list') and node.args:
            if self.hit(node, 'drop call in ' + ast.unparse(node)[:60]): return node.args[0]
        return node
    def visit_List(self, node):
        return node if len(node.elts) > 20 else self.generic_visit(node)     # the documented profile
    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool) or not isinstance(v, (int, float)): return node
        for new in ([v + 1] + ([v - 1] if v else []) if isinstance(v, int) else [v * 1.003 if v else 1.0]):
            if self.hit(node, '%r -> %r' % (v, new)): node = ast.copy_location(ast.Constant(new), node); 
        return node


def run(job):
    f, k, what, text = job
    name = os.path.basename(f)[:-3]
    wt = '/tmp/mut/%s-%d' % (name, k)
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('.git', '__pycache__', 'references', 'paper', 'docs'), symlinks=True)
    open(os.path.join(wt, f), 'w').write(text)
    env = dict(os.environ, PYTHONPATH=wt + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=wt,
               VERIF_EVIDENCE=wt + '/ev', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=wt, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if '20 passed' not in t.stdout and '21 passed' not in t.stdout:
            return f, k, what, 'tests'
        ids = ((ORDER if STAGE == '2' else FIRST).get(name) or SCRIPTS).split()
        last = ''
        for tier in ('smoke', 'quick') if STAGE == '2' else ('smoke',):
            for c in ids:
                try:
                    r = subprocess.run([PY, VERIF + '/mc/check.py', c, tier], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    return f, k, what, 'TIMEOUT ' + c
                if r.returncode == 1: return f, k, what, '%s %s' % (c, tier)
                if r.returncode != 0: return f, k, what, 'ERROR %s %s %s' % (c, tier, r.stdout[-300:])
        return f, k, what, 'SURVIVED'
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    out, part = sys.argv[1], sys.argv[2:]
    os.makedirs('/tmp/mut', exist_ok=True)
    os.chdir('/repo')
    files = sorted(glob.glob('src/itmlogic/**/*.py', recursive=True)) + sorted(glob.glob('scripts/*.py'))
    files = [f for f in files if not f.endswith('__init__.py') and (not part or any(p in f for p in part))]
    jobs = []
    for f in files:
        src = open(f).read()
        m = M(); m.visit(ast.parse(src))
        for k in range(m.n):
            t = M(k); tree = t.visit(ast.parse(src)); ast.fix_missing_locations(tree)
            jobs.append((f, k, t.what, ast.unparse(tree)))
    print(len(jobs), 'mutants', flush=True)
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)[:2]) for l in open(out)}
    jobs = [j for j in jobs if (j[0], j[1]) not in done]
    with ThreadPoolExecutor(PAR) as ex, open(out, 'a') as o:
        for r in (f.result() for f in as_completed([ex.submit(run, j) for j in jobs])):
            o.write(json.dumps(r) + '\n'); o.flush()
            if r[3].split()[0] in ('SURVIVED', 'ERROR', 'TIMEOUT'): print(r, flush=True)

main()
