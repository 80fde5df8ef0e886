#!/usr/bin/env python3
"""automut.py PROP [max] [regex-on-qualname]: mutate the functions executed under PROP's contracts (from its evidence file), run the
check on a scratch copy of each mutant, list survivors"""
import ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
prop, mx = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 60
rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
sys.path.insert(0, V)
par = int(os.environ.get('PAR', '4'))
ev = json.load(open('%s/evidence/%s.json' % (V, prop)))
import importlib
os.environ['PV_NOEXEC'] = '1'
src = open('%s/contracts/%s.py' % (V, prop.lower())).read()
files = set(re.findall(r"pyHalo/[\w/]+\.py", src.split('PROPERTY')[1].split('\n)')[0]))
targets = set(x for c in [re.findall(r"'([\w.]+)'", m) for m in re.findall(r"@contract\((.*?)\)\ndef", src, re.S)] for x in c)


def functions(f):
    tree = ast.parse(open('/repo/' + f).read())
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.name + '.' + m.name, m


SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
        ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.And: ast.Or, ast.Or: ast.And}


GROUPS = [('z', 'z_eval', 'z_infall'), ('mass', 'bound_mass'), ('x', 'y'), ('z_lens', 'z_source'), ('_zlens', '_zsource'), ('_z_lens', '_z_source'),
          ('D_C_z', 'D_C_transverse', 'D_A_z'), ('halos', 'subhalos', 'field_halos'), ('_mlow', '_mhigh'), ('masses', 'redshifts'),
          ('nfw_params', 'profile_args'), ('halo_age', 'time_since_infall'), ('_lens_cosmo', 'lens_cosmo'), ('astropy', '_colossus_cosmo'),
          ('rho_crit', 'rho_dark_matter_crit'), ('minimum', 'maximum'), ('logical_and', 'logical_or'), ('cos', 'sin'), ('log', 'log10'),
          ('rhoc', 'rho_crit'), ('kpc_per_arcsec', 'kpc_proper_per_asec'), ('unique_redshifts', 'redshifts')]
KIND = re.compile(os.environ.get('KIND', '.'))


def mutants(tree, fn):
    """yield (description, lineno, source) for each mutation of fn (a node of tree)"""
    body = fn.body[1:] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
    nodes = [n for b in body for n in ast.walk(b)] + list(fn.args.defaults)
    local = sorted(set(n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)) | set(a.arg for a in fn.args.args if a.arg != 'self'))
    for n in nodes:
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for g in GROUPS:
                if n.attr in g:
                    o = n.attr
                    for v in g:
                        if v != o:
                            n.attr = v
                            yield 'attr %s->%s' % (o, v), n.lineno, ast.unparse(tree)
                    n.attr = o
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and len(local) > 1:
            o = n.id
            n.id = random.choice([v for v in local if v != o])
            yield 'name %s->%s' % (o, n.id), n.lineno, ast.unparse(tree)
            n.id = o
        if isinstance(n, ast.Constant) and not (isinstance(n.value, str) and len(n.value) > 40):
            old = n.value
            news = []
            if isinstance(old, bool):
                news = [not old]
            elif isinstance(old, (int, float)):
                news = [old + 1, old * 1.05 if old else 0.05] if isinstance(old, float) else [old + 1, old - 1]
            elif isinstance(old, str):
                news = [old + 'X']
            for v in news[:2 if not isinstance(old, float) else 1]:
                n.value = v
                yield 'const %r->%r' % (old, v), n.lineno, ast.unparse(tree)
                n.value = old
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            o = n.op
            n.op = SWAP[type(o)]()
            yield 'op %s' % type(o).__name__, n.lineno, ast.unparse(tree)
            n.op = o
        if isinstance(n, ast.BoolOp):
            o = n.op
            n.op = SWAP[type(o)]()
            yield 'bool', n.lineno, ast.unparse(tree)
            n.op = o
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            o = n.ops[0]
            n.ops[0] = SWAP[type(o)]()
            yield 'cmp %s' % type(o).__name__, n.lineno, ast.unparse(tree)
            n.ops[0] = o
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            o = n.test
            n.test = ast.UnaryOp(ast.Not(), o)
            yield 'negate if', n.lineno, ast.unparse(tree)
            n.test = o
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            a = n.args
            n.args = [a[1], a[0]] + a[2:]
            yield 'swap args', n.lineno, ast.unparse(tree)
            n.args = a
        if isinstance(n, ast.Call) and n.keywords:
            a = n.keywords
            for i in range(len(a)):
                n.keywords = a[:i] + a[i + 1:]
                yield 'drop kw %s' % a[i].arg, n.lineno, ast.unparse(tree)
            n.keywords = a
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            o = n.op
            n.op = ast.UAdd()
            yield 'unary minus', n.lineno, ast.unparse(tree)
            n.op = o
        for fld in ('body', 'orelse'):
            l = getattr(n, fld, None)
            if isinstance(l, list):
                for i, s in enumerate(l):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        l[i] = ast.copy_location(ast.Pass(), s)
                        yield 'delete stmt ' + ast.unparse(s)[:50], s.lineno, ast.unparse(tree)
                        l[i] = s
    l = fn.body
    for i, s in enumerate(l):
        if isinstance(s, (ast.AugAssign, ast.Expr, ast.Raise, ast.Assign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            l[i] = ast.copy_location(ast.Pass(), s)
            yield 'delete stmt ' + ast.unparse(s)[:50], s.lineno, ast.unparse(tree)
            l[i] = s


random.seed(int(os.environ.get('SEED', '7')))
allm = []
und = set(x.split(':')[1] for x in ev['coverage']['functions_under_contract'])
for f in sorted(files):
    for q, fn in functions(f):
        if (q in targets or q in und) and rx.search(q):
            tree = ast.parse(open('/repo/' + f).read())
            for q2, fn2 in [(a, b) for a, b in ((x, y) for x, y in [(None, None)])]:
                pass
            # same function in the fresh tree
            node = None
            for n in tree.body:
                if isinstance(n, ast.FunctionDef) and n.name == q:
                    node = n
                if isinstance(n, ast.ClassDef):
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef) and n.name + '.' + m.name == q:
                            node = m
            lines = open('/repo/' + f).read().splitlines()
            for d, ln, s in mutants(tree, node):
                if not KIND.match(d):
                    continue
                if 'print(' in lines[ln - 1] or 'raise Exception' in lines[ln - 1] and d.startswith('const'):
                    continue
                allm.append((f, q, d, ln, lines[ln - 1].strip(), s))
random.seed(int(os.environ.get('SEED', '7')))
tot = len(allm)
if tot > mx:
    allm = random.sample(allm, mx)
os.makedirs('/tmp/mut', exist_ok=True)


def run(m):
    f, q, d, ln, line, s = m
    t = tempfile.mkdtemp(prefix='am', dir='/tmp/mut')
    try:
        shutil.copytree('/repo/pyHalo', t + '/pyHalo')
        open(os.path.join(t, f), 'w').write(s)
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-B', V + '/run.py', prop, '--jobs', '2'], env=dict(os.environ, PV_REPO=t, PV_EVIDENCE=t),
                               capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return m, 'timeout', ''
        return m, r.returncode, ('VIOLATION ' if 'VIOLATION property' in r.stdout else '') + ' '.join(
            sorted(set(re.findall(r'\w+Gap: .*has no attribute .*', r.stdout + r.stderr)))) + (r.stdout + r.stderr)[-100:].strip()
    finally:
        shutil.rmtree(t)


os.environ.pop('PV_NOEXEC')
bad = 0
with ThreadPoolExecutor(par) as ex:
    for m, rc, out in ex.map(run, allm):
        if rc != 1 or 'VIOLATION' not in out:
            bad += 1
            print('SURVIVES rc=%s %s %s:%d %s | %s' % (rc, m[1], m[0].split('/')[-1], m[3], m[2], m[4][:100]), out[-260:] if rc not in (0,) or 'Gap' in out else '')
            sys.stdout.flush()
print('%s: %d mutants run of %d, %d not reported' % (prop, len(allm), tot, bad))
