"""mkseed.py FILE...: build /verif/seeded/<id>/ from a seed description (python file defining SEED and DEMO), confirm it
(applies, stable tests pass, demo passes without / fails with the change), and report whether the property's check catches it"""
import json, os, runpy, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = '''import sys, types, importlib.abc, importlib.machinery
sys.path.insert(0, '/repo')


class _Any(type):
    def __getattr__(cls, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: 0.0


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Any(n, (object,), {'__init__': lambda self, *a, **k: None, '__getattr__': lambda s, m: (lambda *a, **k: 0.0)})


class _F(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] == 'lenstronomy':
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = _Mod(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m):
        pass


try:
    import lenstronomy
except ImportError:
    sys.meta_path.append(_F())
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    for f in sys.argv[1:]:
        d = runpy.run_path(f)
        s = d['SEED']
        sid = os.path.basename(f)[:-3]
        out = os.path.join(VERIF, 'seeded', sid)
        assert not sh(['git', '-C', '/repo', 'status', '--short']).stdout.strip()
        try:
            for path, old, new in s['edits']:
                p = os.path.join('/repo', path)
                t = open(p).read()
                assert t.count(old) == 1, (sid, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh(['git', '-C', '/repo', 'diff']).stdout
            r = sh(['bash', '/opt/vp/test.sh', '/tmp/seed_t.json'])
            t = json.load(open('/tmp/seed_t.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            passed = set(t.get('passed', []))
            tests_ok = all(b in passed for b in base)
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            open(os.path.join(out, 'demo.py'), 'w').write('import stub\n' + d['DEMO'].lstrip('\n'))
            open(os.path.join(out, 'stub.py'), 'w').write(STUB)
            open(os.path.join(out, 'demo.sh'), 'w').write(
                '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            bad = sh(['bash', os.path.join(out, 'demo.sh')], cwd='/repo')
            chk = None if os.environ.get('NOCHECK') else sh(['/opt/venv/bin/python', '-B', 'run.py', s['property']], cwd=VERIF)
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        good = sh(['bash', os.path.join(out, 'demo.sh')], cwd='/repo')
        print('%s tests_ok=%s demo clean=%d broken=%d %s' % (sid, tests_ok, good.returncode, bad.returncode,
                                                            '' if chk is None else 'check=%d' % chk.returncode))
        if good.returncode:
            print(good.stdout[-800:], good.stderr[-1500:])
        if bad.returncode == 0:
            print('demo did not fail')
        elif os.environ.get('V'):
            print(bad.stderr[-600:])
        if chk is not None:
            print('  ', [l[:200] for l in chk.stdout.splitlines() if 'VIOLATION' in l], chk.stderr[-300:])


main()
