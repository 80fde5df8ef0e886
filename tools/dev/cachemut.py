#!/usr/bin/env python3
"""cachemut.py MODE [regex] [max]: give methods a careless cache and run the checks of the properties that execute them, until one reports it.
MODE all: per object, whatever the arguments; arg: per object, one argument forgotten; noarg: methods and properties without arguments, per object;
shared: one cache for all objects of the class"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
mode, rx, mx = sys.argv[1], re.compile(sys.argv[2] if len(sys.argv) > 2 else '.'), int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
cost = dict(P05=150, P29=60, P30=60, P26=40, P27=30, P28=30, P31=25, P08=25, P01=25)
props = {}
for p in sorted(glob.glob(V + '/evidence/P??.json')):
    ev = json.load(open(p))
    src = open('%s/contracts/%s.py' % (V, ev['property_id'].lower() if 'property_id' in ev else os.path.basename(p)[:-5].lower())).read()
    pid = os.path.basename(p)[:-5]
    tg = set(x for m in re.findall(r"@contract\((.*?)\)\ndef", src, re.S) for x in re.findall(r"'([\w.]+)'", m))
    for x in ev['coverage']['functions_under_contract']:
        f, q = x.split(':')[0], x.split(':')[1]
        props.setdefault(q, []).append((q not in tg, cost.get(pid, 10), pid))


def src_with(f, q, i):
    text = open('/repo/' + f).read()
    tree = ast.parse(text)
    holder, name = tree.body, q
    if '.' in q:
        c, name = q.split('.')
        holder = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == c]
        if not holder:
            return None
        holder = holder[0].body
    fn = [n for n in holder if isinstance(n, ast.FunctionDef) and n.name == name]
    if not fn or name.startswith('__'):
        return None
    fn = fn[0]
    if any(not (isinstance(d, ast.Name) and d.id == 'property') for d in fn.decorator_list) or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
        return None
    if not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(fn)):
        return None
    args = [a.arg for a in fn.args.args]
    if '.' not in q or not args or args[0] != 'self':
        return None
    rest = args[1:]
    if mode == 'noarg':
        if rest or i:
            return None
        key = '()'
    elif mode == 'all':
        if not rest or i:
            return None
        key = '()'
    elif mode == 'arg':
        if len(rest) < 2 or i >= len(rest):
            return None
        key = '(%s,)' % ', '.join('repr(%s)' % a for j, a in enumerate(rest) if j != i)
    else:
        if i or not rest:
            return None
        key = '(%s,)' % ', '.join('repr(%s)' % a for a in rest)
    orig = ast.unparse((ast.FunctionDef(name='_orig_' + name, args=fn.args, body=fn.body, decorator_list=[], returns=None, type_params=[], lineno=1, col_offset=0)))
    store = 'self.__dict__' if mode != 'shared' else '_SHARED'
    isprop = bool(fn.decorator_list)
    wrap = ('@property\n' if isprop else '') + 'def %s(%s):\n    k = (%r, %s)\n    d = %s.setdefault("_memo", {})\n    if k not in d:\n        d[k] = self._orig_%s(%s)\n    return d[k]\n' % (
        name, ast.unparse(fn.args), name, key, store, name, ', '.join(rest))
    k = holder.index(fn)
    holder[k:k + 1] = ast.parse(orig).body + ast.parse(wrap).body
    if mode == 'shared':
        # after docstring and __future__ imports
        tree.body.insert(1 if isinstance(tree.body[0], ast.Expr) else 0, ast.parse('_SHARED = {}').body[0])
    return ast.unparse(ast.fix_missing_locations(tree)), rest[i] if mode == 'arg' else ''


todo = []
for f in subprocess.run(['git', '-C', '/repo', 'ls-files', 'pyHalo/*.py', 'pyHalo/**/*.py'], capture_output=True, text=True).stdout.split():
    tree = ast.parse(open('/repo/' + f).read())
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            for n in c.body:
                if isinstance(n, ast.FunctionDef):
                    q = c.name + '.' + n.name
                    if q in props and rx.search(q):
                        for i in range(8):
                            r = src_with(f, q, i)
                            if r and (f, q, r) not in todo:
                                todo.append((f, q, r))
random.seed(5)
tot = len(todo)
if tot > mx:
    todo = random.sample(todo, mx)


def run(m):
    f, q, (s, what) = m
    t = tempfile.mkdtemp(prefix='cm', dir='/tmp/mut')
    tried = []
    try:
        shutil.copytree('/repo/pyHalo', t + '/pyHalo')
        open(os.path.join(t, f), 'w').write(s)
        for _, _, p in sorted(props[q])[:4]:
            tried.append(p)
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-B', V + '/run.py', p, '--jobs', '2'], env=dict(os.environ, PV_REPO=t, PV_EVIDENCE=t),
                                   capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1 and 'VIOLATION property' in r.stdout:
                return m, tried, True
        return m, tried, False
    finally:
        shutil.rmtree(t)


os.makedirs('/tmp/mut', exist_ok=True)
bad = 0
with ThreadPoolExecutor(int(os.environ.get('PAR', '5'))) as ex:
    for m, tried, ok in ex.map(run, todo):
        if not ok:
            bad += 1
            print('SURVIVES %s %s %s tried %s' % (m[0].split('/')[-1], m[1], m[2][1], ' '.join(tried)))
            sys.stdout.flush()
print('%s: %d of %d run, %d not reported' % (mode, len(todo), tot, bad))
