"""Contracts name a few private attributes and helpers of the code. When such a name is gone from the tree and another, new name stands
in exactly its places, the contracts are read with the new name: a renaming is not a change of behaviour.

names.json (written by tools/gen.py) lists the identifiers of the tree the contracts were written against."""
import ast
import difflib
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = os.path.join(HERE, 'names.json')
PRIVATE = re.compile(r'_[A-Za-z]\w*$')


def identifiers(path):
    """how often each identifier occurs in a file (strings that are private names count too: hasattr(self, '_x'))"""
    out = {}
    try:
        with open(path) as f:
            tree = ast.parse(f.read())
    except (SyntaxError, OSError):
        return out
    for n in ast.walk(tree):
        for a in ('id', 'attr', 'name', 'arg'):
            v = getattr(n, a, None)
            if isinstance(v, str):
                out[v] = out.get(v, 0) + 1
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and PRIVATE.match(n.value):
            out[n.value] = out.get(n.value, 0) + 1
    return out


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def scan(repo, known=None):
    """file -> [digest, identifiers]; known files are not read again"""
    out = {}
    for d, _, files in os.walk(os.path.join(repo, 'pyHalo')):
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                r = os.path.relpath(p, repo)
                h = digest(p)
                out[r] = known[r] if known and r in known and known[r][0] == h else [h, identifiers(p)]
    return out


def spread(table, name):
    return {f: t[name] for f, t in table.items() if name in t}


def mapping(repo):
    if not os.path.exists(TABLE):
        return {}
    with open(TABLE) as f:
        old = json.load(f)
    new = scan(repo, old)
    if new == old:
        return {}
    old, new = {f: t[1] for f, t in old.items()}, {f: t[1] for f, t in new.items()}
    was, now = set(n for t in old.values() for n in t), set(n for t in new.values() for n in t)
    gone = [n for n in was - now if PRIVATE.match(n)]
    if not gone:
        return {}
    fresh = sorted(now - was)
    out = {}
    for m in gone:
        a = spread(old, m)
        same = [n for n in fresh if spread(new, n) == a]
        if len(same) != 1:
            same = [n for n in fresh if set(spread(new, n)) == set(a) and PRIVATE.match(n)]
            if len(same) == 1 and sum(1 for g in gone if set(spread(old, g)) == set(a)) > 1:
                same = []
        if len(same) > 1:       # several names went at once: the most similar new one
            same = difflib.get_close_matches(m, same, 1, 0.6)
        if len(same) == 1:
            out[m] = same[0]
    return {m: n for m, n in out.items() if list(out.values()).count(n) == 1}


def adapted(here, repo):
    """run this check again with renamed contracts; None if nothing was renamed"""
    names = mapping(repo)
    used = {}
    pat = re.compile(r'(?<!\w)(%s)(?!\w)' % '|'.join(map(re.escape, sorted(names)))) if names else None
    if not names:
        return None
    d = tempfile.mkdtemp(prefix='pv_renamed_')
    try:
        for x in os.listdir(here):
            if x in ('.git', 'evidence', 'seeded', 'tools', '__pycache__'):
                continue
            s, t = os.path.join(here, x), os.path.join(d, x)
            if os.path.isdir(s):
                shutil.copytree(s, t, ignore=shutil.ignore_patterns('__pycache__'))
            else:
                shutil.copy(s, t)
        for b, _, files in os.walk(os.path.join(d, 'contracts')):
            for x in files:
                if x.endswith('.py'):
                    p = os.path.join(b, x)
                    with open(p) as f:
                        src = f.read()
                    out = pat.sub(lambda q: used.setdefault(q.group(1), names[q.group(1)]), src)
                    if out != src:
                        with open(p, 'w') as f:
                            f.write(out)
        if not used:
            return None
        print('renamed in the tree: ' + ', '.join('%s -> %s' % q for q in sorted(used.items())))
        sys.stdout.flush()
        env = dict(os.environ, PV_RENAMED='1')
        env.setdefault('PV_EVIDENCE', os.path.join(here, 'evidence'))
        return subprocess.call([sys.executable, '-B', os.path.join(d, 'run.py')] + sys.argv[1:], env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)
