"""properties.jsonl and MANIFEST.json from the PROPERTY tables at the head of contracts/pNN.py"""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contracts on the real functions; VCs from /repo source, discharged by normal-form rewriting + z3'
NOTE = ('Postconditions of the listed functions are discharged for all inputs and all sequence lengths on every run; '
        'contracts reported in the evidence as partly proved or bounded rest on native runs of the same contract. '
        'Trusted: the VC generator (engine/), z3, contracts of numpy/scipy/builtins (models.py), floats read as reals.')


def table(path):
    for st in ast.parse(open(path).read()).body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') == 'PROPERTY':
            return {kw.arg: ast.literal_eval(kw.value) for kw in st.value.keywords}


def main():
    props, checks = [], []
    for p in sorted(glob.glob(os.path.join(HERE, 'contracts', 'p[0-9]*.py'))):
        t = table(p)
        if t is None:
            print('no table in', p)
            continue
        t = dict(t)
        pid = os.path.basename(p)[:-3].upper()
        note = t.pop('note', '')
        over = t.pop('over', ['inputs'])
        d = {'id': pid, 'title': t['title'], 'statement': ' '.join(t['statement'].split()),
             'quantifier': {'over': over, 'text': ' '.join(t['forall'].split())},
             'why_tests_cant': ' '.join(t['tests'].split()),
             'anchors': {'files': t['files'],
                         'mechanism': [{'name': a, 'where': b} for a, b in t['mechanism']]}}
        assert len(d['title']) <= 80, (pid, len(d['title']))
        props.append(d)
        checks.append({'property': pid, 'quick_cmd': '/opt/venv/bin/python -B run.py %s' % pid,
                       'thorough_cmd': '/opt/venv/bin/python -B run.py %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': TECH, 'level': 'proof',
                       'level_note': (NOTE + ' ' + ' '.join(note.split())).strip()})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in props:
            f.write(json.dumps(d) + '\n')
    na = []
    nap = os.path.join(HERE, 'tools', 'not_applicable.json')
    if os.path.exists(nap):
        for d in json.load(open(nap)):
            na.append({'property': d['id'], 'reason': d.pop('reason')})
            with open(os.path.join(HERE, 'properties.jsonl'), 'a') as f:
                f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B run.py --selftest', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks. Contracts in contracts/, VC generator and prover in engine/, stand-ins for the absent lensing '
                  'library in stubs/. Known findings in known_findings.json.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design(props)
    print(len(props), 'properties')


def contracts_of(pid):
    out = []
    for st in ast.parse(open(os.path.join(HERE, 'contracts', pid.lower() + '.py')).read()).body:
        if isinstance(st, ast.FunctionDef):
            for d in st.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'contract':
                    tg = [a for a in d.args[1:] if isinstance(a, ast.List)]
                    out.append((st.name, d.args[0].value, [e.value for e in tg[0].elts] if tg else []))
    return out


def design(props):
    """DESIGN.md from tools/design.md, the tables, the last evidence, the findings and the planted bugs"""
    sec = []
    for d in props:
        pid = d['id']
        sec.append('### %s %s\n\n%s\n' % (pid, d['title'], d['statement']))
        try:
            c = json.load(open(os.path.join(HERE, 'evidence', pid + '.json')))
            ev = c['coverage']
        except OSError:
            continue
        weak = {e['contract']: e for e in ev['contracts_partly_proved_or_bounded']}
        for name, title, targets in contracts_of(pid):
            w = weak.get(name)
            sec.append('* %s (%s)%s' % (title, ', '.join(targets) or '-', ' - **%s**' % w['status'] if w else ''))
        sec.append('\nFor %s. %d functions executed under contract; %d obligations, %d discharged (%d by normal form, %d by z3, %.1f s of solver, the rest hold structurally); '
                   '%d native runs; %s s. Beyond tests: %s\n' % (
                       d['quantifier']['text'], len(ev['functions_under_contract']), ev['obligations'], ev['discharged'],
                       ev['backends']['normal-form rewriting'], ev['backends']['z3'], ev['backends']['z3_seconds'], ev['evaluations'],
                       c.get('wall_s', '?'), d['why_tests_cant']))
    fs = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    fnd = ['| | property | commit | what |', '|---|---|---|---|']
    for f in fs:
        w = f['what']
        if f['status'] == 'fixed':
            w = w.split(f['commit'] + ' ', 1)[1]
        fnd.append('| %s | %s | %s | %s |' % (f['id'], f['property'], f.get('commit', 'open: known finding'), w))
    sd = ['| | property | what it needs | what it breaks | found by |', '|---|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        q = json.load(open(m))
        sd.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), q['property'], q['needs'], q['what_it_breaks'], q.get('caught', 'check of ' + q['property'])))
    s = open(os.path.join(HERE, 'tools', 'design.md')).read()
    for tag, body in (('PROPERTIES', sec), ('FINDINGS', fnd), ('SEEDS', sd)):
        s = s.replace('<!-- %s -->' % tag, '\n'.join(body))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(s)

    import sys
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from engine import renames
    with open(renames.TABLE, 'w') as f:
        json.dump(renames.scan(os.environ.get('PV_REPO', '/repo')), f, sort_keys=True, indent=0)
        f.write('\n')


main()
