#!/usr/bin/env python
"""Decide one property:  run.py P01 [--tier quick|thorough] [--replay FILE] [--only CONTRACT] [-v]

Executes the contracts in contracts/<id>.py against the source tree in /repo (PV_REPO overrides):
  1. verification conditions are generated from the current source and discharged (engine/);
  2. each refuted obligation's counter-model is replayed on the real code under CPython;
  3. every contract also runs natively on sampled inputs (cross-check of the engine, and bounded stand-in for
     obligations that are not discharged).
"""
import os
import sys
import time

sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PV_REPO', '/repo')
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('PV_NOEXEC'):
    os.environ['PV_NOEXEC'] = '1'
    os.execv(PY, [PY, '-B'] + sys.argv)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.append(os.path.join(HERE, 'stubs'))

import importlib          # noqa: E402
import json               # noqa: E402
import multiprocessing as mp   # noqa: E402
import traceback          # noqa: E402

sys.setrecursionlimit(20000)
import threading          # noqa: E402
threading.stack_size(256 * 1024 * 1024)


def load(prop):
    from engine import api
    del api.CONTRACTS[:]
    importlib.import_module('contracts.%s' % prop.lower())
    return list(api.CONTRACTS)


# ------------------------------------------------------------------------------------------------------------- workers

_C = {}


def _in_thread(f, *a):
    out = []

    def go():
        try:
            out.append(f(*a))
        except BaseException as e:
            out.append({'error': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:])})
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0]


def work(task):
    kind, idx, arg = task
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):  # what the code under test prints
        r = _in_thread(work_sym if kind == 'sym' else work_conc, idx, arg)
    r['kind'], r['idx'] = kind, idx
    return r


def work_sym(idx, arg):
    from engine import kit as K, smt as S, interp as IN
    c = _C['list'][idx]
    budget, timeout, tries = arg
    z0 = dict(S.STATS)
    rep = K.run_symbolic(c.fn, budget, timeout)
    out = {'obls': [], 'paths': rep.paths, 'reached': rep.reached, 'unsupported': rep.unsupported, 'trace': rep.trace,
           'notes': rep.notes, 'wall': rep.wall, 'confirmed': []}
    seen = set()
    for label, path, res, text in rep.obls:
        o = {'label': label, 'path': path, 'status': res.status, 'how': res.how, 'text': text,
             'why': getattr(res, 'why', '') or (str(res.detail)[:300] if res.status == 'unknown' else ''),
             'weak': bool(res.weak), 'structural': bool(getattr(res, 'structural', False)),
             'engine_exc': bool(getattr(res, 'engine_exc', False)), 'syms': getattr(res, 'syms', [])}
        if res.status == 'refuted' and len(out['confirmed']) < 3 and len(seen) < 12:
            seen.add(label)
            orc = None
            try:
                orc = K.Oracle(res.model, res.detail if not isinstance(res.detail, str) else None)
                o['model'] = orc.to_json()
            except Exception as e:
                o['model_error'] = str(e)
            if orc is not None:
                for t in range(tries):
                    try:
                        k = K.run_concrete(c.fn, 'replay%d' % t, orc, c.nmax)
                    except BaseException as e:
                        o['replay_error'] = '%s: %s' % (type(e).__name__, e)
                        break
                    if k is not None and k.fails:
                        out['confirmed'].append({'contract': c.name, 'label': label, 'seed': 'replay%d' % t,
                                                 'model': o.get('model'), 'fails': one_per_label(k.fails),
                                                 'inputs': _js(k.inputs), 'path_condition_obligation': text})
                        o['replayed'] = True
                        break
        out['obls'].append(o)
    out['stats'] = {a: S.STATS[a] - z0.get(a, 0) for a in S.STATS}
    out['funcs'] = sorted({'%s:%s' % (os.path.relpath(f, IN.REPO), q) for (f, q) in IN.FUNCS})
    out['cover'] = {os.path.relpath(f, IN.REPO): sorted(l) for f, l in IN.COVER.items() if f.startswith(IN.REPO)}
    IN.FUNCS.clear()
    IN.COVER.clear()
    return out


def _js(x):
    return json.loads(json.dumps(x, default=repr))


def work_conc(idx, seeds):
    from engine import kit as K
    c = _C['list'][idx]
    out = {'runs': 0, 'skipped': 0, 'checks': 0, 'fails': [], 'labels': [], 'sample': None, 'distinct': 0}
    labels = set()
    distinct = set()
    for s in seeds:
        k = K.run_concrete(c.fn, s, None, c.nmax)
        if k is None:
            out['skipped'] += 1
            continue
        out['runs'] += 1
        out['checks'] += k.nchecks
        labels |= k.labels
        if k.nchecks:
            distinct.add(repr(sorted(k.inputs.items(), key=lambda z: z[0])))
        if out['sample'] is None and k.nchecks:
            out['sample'] = {'contract': c.name, 'seed': s, 'inputs': _js(k.inputs), 'checks': k.nchecks}
        if k.fails:
            out['fails'].append({'contract': c.name, 'seed': s, 'fails': one_per_label(k.fails), 'inputs': _js(k.inputs)})
            if len(out['fails']) >= 5:
                break
    out['labels'] = sorted(labels)
    out['distinct'] = len(distinct)
    return out


# ---------------------------------------------------------------------------------------------------------------- main

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--nosym', action='store_true')
    ap.add_argument('--noconc', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    prop = a.prop.upper()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    cs = load(prop)
    if a.only:
        cs = [c for c in cs if c.name == a.only]
    _C['list'] = cs
    if a.replay:
        return replay(cs, a.replay)
    from engine import models, kit      # noqa: F401  (import before forking)
    mult = 10 if tier == 'thorough' else 1
    tasks = []
    for i, c in enumerate(cs):
        if c.thorough_only and tier == 'quick':
            continue
        if c.sym and not a.nosym:
            tasks.append(('sym', i, (c.budget * (5 if tier == 'thorough' else 1), c.timeout * (3 if tier == 'thorough' else 1), 4)))
    for i, c in enumerate(cs):
        if c.thorough_only and tier == 'quick' or a.noconc:
            continue
        n = c.seeds * mult
        ss = ['%d.%d' % (seed, j) for j in range(n)]
        chunk = max(10, (n + 3) // 4)
        for j in range(0, n, chunk):
            tasks.append(('conc', i, ss[j:j + chunk]))
    res = []
    if a.jobs <= 1:
        res = [work(t) for t in tasks]
    else:
        ctx = mp.get_context('fork')
        hard = 820 if tier == 'quick' else 3000
        with ctx.Pool(min(a.jobs, max(1, len(tasks))), maxtasksperchild=8) as pool:
            pend = [(t, pool.apply_async(work, (t,))) for t in tasks]
            for t, p in pend:
                left = max(1.0, hard - (time.time() - t0))
                try:
                    res.append(p.get(left))
                except mp.TimeoutError:
                    res.append({'kind': t[0], 'idx': t[1], 'error': 'timeout'})
            # obligations left open: a larger native search on those contracts
            t1 = time.time()
            again = []
            for r in res:
                if r['kind'] == 'sym' and ('error' in r or r['unsupported'] or any(o['status'] != 'proved' for o in r['obls'])) \
                        and not r.get('confirmed') and not a.noconc \
                        and not any(q['kind'] == 'conc' and q['idx'] == r['idx'] and ('error' in q or q['fails']) for q in res):
                    i, c = r['idx'], cs[r['idx']]
                    if c.search <= 0:
                        continue
                    ss = ['%d.x%d' % (seed, j) for j in range(c.seeds * c.search * mult)]
                    chunk = max(10, (len(ss) + 7) // 8)
                    again += [('conc', i, ss[j:j + chunk]) for j in range(0, len(ss), chunk)]
            pend = [(t, pool.apply_async(work, (t,))) for t in again]
            for t, p in pend:
                left = max(0.5, (100 if tier == 'quick' else 600) - (time.time() - t1))
                try:
                    res.append(p.get(left))
                except mp.TimeoutError:
                    break
            pool.terminate()
    return report(prop, tier, seed, cs, res, t0, a)


def selftest():
    """setup: the interpreter, the solver and the sources are there"""
    import z3
    import numpy
    import pyHalo
    assert os.path.realpath(os.path.dirname(os.path.dirname(pyHalo.__file__))) == os.path.realpath(REPO), pyHalo.__file__
    x = z3.Int('x')
    s_ = z3.Solver()
    s_.add(x * x == 49, x > 0)
    assert s_.check() == z3.sat
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    print('ready: z3 %s, numpy %s' % (z3.get_version_string(), numpy.__version__))
    return 0


def one_per_label(fails):
    seen = {}
    for f in fails:
        seen.setdefault(f[0], f)
    return list(seen.values())[:40]


def known(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            for e in json.load(f)['findings']:
                if e['property'] == prop:
                    out.append(e)
    except FileNotFoundError:
        pass
    return out


def report(prop, tier, seed, cs, res, t0, a):
    violations = []
    contracts = []
    stats = {}
    funcs = set()
    cover = {}
    errors = []
    samples = []
    assumptions = set()
    tot = {'obligations': 0, 'discharged': 0, 'undecided': 0, 'native_runs': 0, 'native_checks': 0, 'paths': 0,
           'distinct': 0}
    weakviol = []
    for i, c in enumerate(cs):
        sym = [r for r in res if r['kind'] == 'sym' and r['idx'] == i]
        con = [r for r in res if r['kind'] == 'conc' and r['idx'] == i]
        d = {'contract': c.name, 'title': c.title, 'targets': list(c.targets)}
        for r in sym + con:
            if 'error' in r:
                errors.append('%s: %s' % (c.name, r['error']))
        sym = [r for r in sym if 'error' not in r]
        con = [r for r in con if 'error' not in r]
        und = []
        if sym:
            r = sym[0]
            d['paths'] = r['paths']
            tot['paths'] += r['paths']
            d['obligations'] = len(r['obls'])
            d['discharged'] = sum(1 for o in r['obls'] if o['status'] == 'proved')
            d['vacuous_paths'] = sum(1 for o in r['obls'] if o['how'] == 'vacuous path')
            d['solver_s'] = round(r['stats'].get('z3_s', 0.0), 2)
            d['wall_s'] = round(r['wall'], 2)
            if r['unsupported']:
                d['outside_reach'] = r['unsupported']
                if a.v:
                    print(c.name, 'TRACE', r['trace'][-700:])
            und = [o for o in r['obls'] if o['status'] != 'proved']
            d['undischarged'] = [{'label': o['label'], 'status': o['status'], 'why': o['why']} for o in und][:10]
            for k_, v in r['stats'].items():
                stats[k_] = stats.get(k_, 0) + v
            funcs |= set(r['funcs'])
            for f, l in r['cover'].items():
                cover.setdefault(f, set()).update(l)
            tot['obligations'] += len(r['obls'])
            tot['discharged'] += d['discharged']
            tot['undecided'] += len(und)
            assumptions |= {'note: ' + n for n in r['notes']}
            for v in r['confirmed']:
                violations.append(dict(v, source='counter-model replayed on the real code'))
            if not r['reached'] and not r['unsupported']:
                errors.append('%s: vacuous (the code under contract is never reached)' % c.name)
            for o in und:
                if o['status'] == 'refuted' and not o.get('replayed') and not o['weak'] and not o['structural'] \
                        and not o['engine_exc']:
                    weakviol.append((c.name, o))
        else:
            d['proved'] = False
        d['native_runs'] = sum(r['runs'] for r in con)
        d['native_checks'] = sum(r['checks'] for r in con)
        d['native_outside_precondition'] = sum(r['skipped'] for r in con)
        tot['native_runs'] += d['native_runs']
        tot['native_checks'] += d['native_checks']
        tot['distinct'] += sum(r['distinct'] for r in con)
        for r in con:
            if r['sample'] and len(samples) < 6 and not any(s_['contract'] == c.name for s_ in samples):
                samples.append(r['sample'])
            for f in r['fails']:
                violations.append(dict(f, source='native run of the contract', label=f['fails'][0][0]))
        d['status'] = 'proved' if sym and not und and not d.get('outside_reach') and d['obligations'] else \
            ('partly proved' if sym and d.get('discharged') else 'bounded')
        contracts.append(d)
        if a.v:
            print('%-34s %-13s paths %-4s obl %s/%s  solver %ss wall %ss native %d/%d%s' % (
                c.name, d['status'], d.get('paths'), d.get('discharged'), d.get('obligations'), d.get('solver_s'),
                d.get('wall_s'), d['native_runs'], d['native_checks'],
                '  OUTSIDE: ' + d['outside_reach'] if d.get('outside_reach') else ''))
            for o in und[:6]:
                print('     %s %s [%s] %s %s %s' % (o['status'], o['label'], o['how'], (o['text'] or '')[:300], o['why'][:300],
                                                  'REPLAYED' if o.get('replayed') else ''))
    # obligations refuted without a replayed input: only when nothing better is known
    kf = known(prop)
    printed = set()
    real = []
    for v in violations:
        # a failing run is a known finding only if everything that fails in it is listed
        labels = [f[0] for f in v.get('fails') or [(v['label'],)]]
        ms = [[e for e in kf if e.get('status') == 'open' and e['contract'] == v['contract'] and e['label'] == l] for l in labels]
        if all(ms):
            for m in ms:
                printed.add((m[0]['id'], m[0]['what']))
        else:
            v['label'] = [l for l, m in zip(labels, ms) if not m][0]
            real.append(v)
    wv = [(n, o) for n, o in weakviol
          if not any(e.get('status') == 'open' and e['contract'] == n and e['label'] == o['label'] for e in kf)]
    wv = [(n, o) for n, o in wv if not any(v['contract'] == n for v in violations)]
    bounded = [d for d in contracts if d['status'] != 'proved']
    level = 'proof'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': tot['obligations'], 'discharged': tot['discharged'],
            'checker_cmd': '/opt/venv/bin/python run.py %s --tier %s' % (prop, tier),
            'trusted_base': TRUSTED,
            'evaluations': tot['native_runs'], 'distinct_nontrivial': tot['distinct'],
            'rule': 'native runs of the same contracts on sampled inputs; distinct inputs with at least one evaluated check',
            'samples': samples[:4],
            'contracts_proved': [d['contract'] for d in contracts if d['status'] == 'proved'],
            'contracts_partly_proved_or_bounded': [
                {'contract': d['contract'], 'status': d['status'], 'outside_reach': d.get('outside_reach'),
                 'undischarged': d.get('undischarged', []),
                 'bounded_by': '%d native runs, sequences of length <= %d' % (d['native_runs'], 6)} for d in bounded],
            'functions_under_contract': sorted(funcs),
            'paths': tot['paths'],
            'backends': {'normal-form rewriting': stats.get('norm', 0), 'z3': stats.get('z3_proved', 0),
                         'z3_calls': stats.get('z3_calls', 0), 'z3_seconds': round(stats.get('z3_s', 0), 2)},
            'statements_of_repo_executed_symbolically': {f: len(l) for f, l in sorted(cover.items())},
            'detail': contracts,
        },
        'assumptions': ASSUME + sorted(assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(real) + (1 if wv and not real else 0),
    }
    evdir = os.environ.get('PV_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    name = os.path.join(evdir, prop + '.json')
    if not a.only:
        with open(name, 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    for i_, what in sorted(printed):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    rc = 0
    if real or wv:
        rp = os.path.join(evdir, prop + '.replay.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'repo': REPO, 'violations': real[:10],
                       'obligations_refuted': [dict(contract=n, **{k: o[k] for k in o if k != 'syms'}) for n, o in weakviol[:10]],
                       'how_to_replay': 'run.py %s --replay %s' % (prop, rp)}, f, indent=1, default=repr)
        if real:
            v = real[0]
            print('contract %s: obligation "%s" fails: %s' % (v['contract'], v['label'], str(v['fails'])[:600]))
            print('inputs: %s' % json.dumps(v['inputs'])[:800])
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            n, o = wv[0]
            print('contract %s: obligation "%s" refuted: %s %s' % (n, o['label'], (o['text'] or '')[:500], o['why'][:300]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    for e in errors:
        print('ERROR', e[:1500])
    print('%s %s: %d obligations, %d discharged, %d undecided, %d paths, native runs %d (checks %d), %.1fs%s' % (
        prop, 'VIOLATED' if rc else 'held', tot['obligations'], tot['discharged'], tot['undecided'], tot['paths'],
        tot['native_runs'], tot['native_checks'], time.time() - t0, ', %d errors' % len(errors) if errors else ''))
    if rc == 0 and (tot['obligations'] + tot['native_checks'] == 0):
        print('nothing was checked')
        rc = 2
    if rc == 0 and errors and tot['native_checks'] == 0:
        rc = 2
    sys.stdout.flush()
    return rc


TRUSTED = [
    'engine/interp.py, models.py, terms.py, norm.py, smt.py, seqs.py, kit.py: VC generator and normal-form prover of this framework',
    'z3 (python bindings in /opt/veriftools/pyvenv)',
    'CPython ast module; the executed text is the text parsed',
    'models.py: contracts of builtins, numpy and scipy (cross-checked by the native runs)',
]
ASSUME = [
    'machine floating point is treated as real arithmetic (coefficients compared to 1e-9 relative)',
    'arrays and lists have finite symbolic length; aliasing only as constructed by the contract',
    'the lensing library is absent: its functions are uninterpreted symbols (stubs/lenstronomy)',
]


def replay(cs, path):
    from engine import kit as K
    with open(path) as f:
        d = json.load(f)
    bad = 0
    for v in d['violations']:
        c = [c for c in cs if c.name == v['contract']][0]
        orc = None
        if v.get('model'):
            orc = K.Oracle.__new__(K.Oracle)
            orc.consts = v['model']['consts']
            orc.funcs = {k: ([(a, b) for a, b in e], els) for k, (e, els) in v['model']['funcs'].items()}
            orc.idxmap = {}
        k = K.run_concrete(c.fn, v['seed'], orc, c.nmax)
        print(c.name, v['label'], 'FAILS' if k is not None and k.fails else 'passes', k.fails[:3] if k else None)
        bad += bool(k is not None and k.fails)
    return 1 if bad else 0


if __name__ == '__main__':
    if not os.environ.get('PV_RENAMED'):
        from engine import renames
        rc = renames.adapted(HERE, REPO)
        if rc is not None:
            sys.exit(rc)
    sys.exit(main())
