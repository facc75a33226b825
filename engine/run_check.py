#!/usr/bin/env python3
"""run_check.py PROP [--tier quick|thorough]  |  run_check.py --replay FILE

Decides one property: (1) proves every obligation of its contracts on the source of /repo as it is now, (2) evaluates the
same contracts on the real code with real numpy (search for a failing input; bounded cross-check)."""
import sys, os, json, time, argparse, subprocess, re, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
SYMPY = os.environ.get('VERIF_SYMPY') or ('/opt/veriftools/pyvenv/bin/python' if os.path.exists('/opt/veriftools/pyvenv/bin/python') else 'python3-vt')
CONPY = '/opt/venv/bin/python'
def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    e.pop('PYTHONPATH', None)
    return e
def known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'): out.append(json.loads(l))
    return out
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay')
    ap.add_argument('--only', default=''); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = a.prop; tier = a.tier
    tmp = tempfile.mkdtemp(prefix='vc_')
    ncon = 3 if tier == 'quick' else 4
    trials, cb = (60, 2.0) if tier == 'quick' else (3000, 60.0)
    ps = []
    sym = subprocess.Popen([SYMPY, os.path.join(HERE, 'run_sym.py'), prop, tmp + '/sym.json', '--tier', tier, '--workers', '6', '--only', a.only,
                            '--total', '600' if tier == 'quick' else '3000'],
                           env=env(), stdout=open(tmp + '/sym.out', 'w'), stderr=subprocess.STDOUT)
    cons = [subprocess.Popen([CONPY, os.path.join(HERE, 'run_con.py'), prop, tmp + '/con%d.json' % i, '--seed', str(seed), '--trials', str(trials),
                              '--budget', str(cb), '--part', '%d/%d' % (i, ncon), '--only', a.only, '--tier', tier], env=env(),
                             stdout=open(tmp + '/con%d.out' % i, 'w'), stderr=subprocess.STDOUT) for i in range(ncon)]
    selft = subprocess.Popen([SYMPY, os.path.join(HERE, 'selftest.py'), '--json', tmp + '/self.json'] + (['--trials', '2'] if tier == 'quick' else ['--trials', '60', '--seed', str(seed)]),
                             env=env(), stdout=open(tmp + '/self.out', 'w'), stderr=subprocess.DEVNULL)
    for p in cons: p.wait()
    if any_input(tmp, ncon, prop):         # a failing input is known: give the prover a little time to name the obligations it breaks
        try: sym.wait(timeout=30)
        except subprocess.TimeoutExpired: open(tmp + '/sym.json.stop', 'w').close()
    sym.wait(); selft.wait()
    err = []
    harder = 0; tharder = time.time()
    con = []
    for i in range(ncon):
        if os.path.exists(tmp + '/con%d.json' % i): con += json.load(open(tmp + '/con%d.json' % i))
        else: err.append('concrete runner: ' + open(tmp + '/con%d.out' % i).read()[-1500:])
    try: stest = json.load(open(tmp + '/self.json'))
    except Exception: stest = dict(failures=['did not run'])
    if stest['failures'] and tier != 'quick': err.append('the library contracts disagree with numpy: ' + str(stest['failures'])[:800])
    if os.path.exists(tmp + '/sym.json'): S = json.load(open(tmp + '/sym.json'))
    else:
        S = dict(jobs=[]); err.append('prover: ' + open(tmp + '/sym.out').read()[-1500:])
    cmap = {(c['contract'], c['config']): c for c in con}
    kn = [k for k in known() if k['property'] == prop and k.get('status') != 'fixed']
    viol = []; known_hit = []; undec = []
    obligations = discharged = 0; back = {}; funcs = set(); solver = dict(queries=0, time=0., unsat=0, sat=0, unknown=0)
    paths = 0; bounded = []; perobl = {}
    def suppressed(label, check):
        for k in kn:
            if re.fullmatch(k['contract'], label) and re.fullmatch(k['check'], check, re.S): return k
        return None
    for c in con:
        if c['harness']: undec.append('%s: contract could not be evaluated on the real code: %s' % (c['label'], c['harness'][:600]))
        v = c['violation']
        if v:
            s = suppressed(c['label'], v['detail'])
            if s: known_hit.append(s); continue
            viol.append(dict(label=c['label'], contract=c['contract'], config=c['config'], kind='input', trial=v['trial'], failed=v['detail'], inputs=v['inputs']))
    for j in S['jobs']:
        paths += j['paths']; funcs |= set(j['executed'])
        for k in solver: solver[k] += j['solver'].get(k, 0)
        for u in j['undecided']: undec.append('%s: %s' % (j['label'], u))
        bad = [o for o in j['obl'] if o['status'] == 'refuted']
        for o in j['obl']:
            obligations += 1
            if o['status'] == 'proved': discharged += 1; back[o['backend']] = back.get(o['backend'], 0) + 1
            if o['status'] == 'unknown': undec.append('%s: obligation %s not decided: %s' % (j['label'], o['name'], o['info'][:300]))
        if j['obl'] and j['reach'] == 0: undec.append('%s: no feasible path reaches the end (vacuous)' % j['label'])
        if not j['obl'] and not j['undecided']: undec.append('%s: no obligation generated' % j['label'])
        if bad:
            key = (j['contract'], j['config'])
            if any(v['contract'] == j['contract'] and v['config'] == j['config'] and v['kind'] == 'input' for v in viol): 
                for v in viol:
                    if v['contract'] == j['contract'] and v['config'] == j['config']: v['obligations'] = [dict(name=o['name'], info=o['info'][:1500]) for o in bad[:5]]
                continue
            s = [suppressed(j['label'], o['name']) for o in bad]
            if all(s): known_hit += s; continue
            # search harder for a failing input
            found = None
            if key in cmap and (harder < 4 and time.time() - tharder < 100):
                harder += 1
                p = subprocess.run([CONPY, os.path.join(HERE, 'run_con.py'), prop, tmp + '/x.json', '--seed', str(seed + 1000), '--trials', '1500', '--budget', '20',
                                    '--only', j['label'], '--tier', tier], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try:
                    for c in json.load(open(tmp + '/x.json')):
                        if c['label'] == j['label'] and c['violation'] and not suppressed(c['label'], c['violation']['detail']): found = c['violation']
                except Exception: pass
            if found: viol.append(dict(label=j['label'], contract=j['contract'], config=j['config'], kind='input', trial=found['trial'], seed=seed + 1000, failed=found['detail'],
                                       inputs=found['inputs'], obligations=[dict(name=o['name'], info=o['info'][:1500]) for o in bad[:5]]))
            else: viol.append(dict(label=j['label'], contract=j['contract'], config=j['config'], kind='obligation', failed='obligation ' + ', '.join(sorted({o['name'] for o in bad})),
                                   obligations=[dict(name=o['name'], path=o['path'], backend=o['backend'], output=o['info']) for o in bad[:8]]))
    if S.get('import_errors'): undec.append('modules the prover could not load: %s' % S['import_errors'])
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evals = sum(c['evaluations'] for c in con)
    fullset = {(j['contract'], j['config']) for j in S['jobs'] if j['obl'] and not j['undecided'] and all(o['status'] == 'proved' for o in j['obl'])}
    bounded = sorted(c['label'] for c in con if (c['contract'], c['config']) not in fullset)
    lines = []
    for n, v in enumerate(viol):
        path = os.path.join(VERIF, 'replay', '%s_%d.json' % (prop, n))
        json.dump({'property': prop, 'seed': seed, 'tier': tier, **v}, open(path, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v['kind'] == 'input' else ' no-failing-input-found'))
        lines.append('  # %s: %s' % (v['label'], v['failed'][:400]))
    wall = round(time.time() - t0, 2)
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json'))) if os.path.exists(os.path.join(VERIF, 'MANIFEST.json')) else dict(checks=[])
    lvl = next((c['level'] for c in man['checks'] if c['property'] == prop), 'proof')
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, wall_s=wall, violations=len(viol),
              coverage=dict(obligations=obligations, discharged=discharged, checker_cmd='python3 engine/run_check.py %s --tier %s' % (prop, tier),
                            trusted_base=TRUSTED, library_contracts_selftest=stest, back_ends=back, solver_time_s=round(solver['time'], 2), solver_queries=solver['queries'],
                            control_flow_paths=paths, contracts_proved=len(fullset), contracts_total=len({(j['contract'], j['config']) for j in S['jobs']} | set(cmap)),
                            functions_under_contract=sorted(funcs), bounded_only=bounded,
                            bounded_note='the contracts listed in bounded_only were only evaluated on sampled inputs (M<=3, N<=6, d<=3 unless the contract says otherwise); they are not counted as proved',
                            evaluations=evals, distinct_nontrivial=sum(c['distinct'] for c in con),
                            rule='real code run with real numpy on pseudo-random inputs from VERIF_SEED; a case counts if no precondition discarded it and its sampled inputs differ',
                            concrete_checks=sum(c['checks'] for c in con), samples=[s for c in con for s in c['samples']][:2],
                            undecided=undec[:40]),
              assumptions=ASSUMED)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s tier=%s: %d obligations, %d discharged (%s), %d paths, %d contracts fully proved of %d, %d concrete evaluations, %.1f s' % (
        prop, tier, obligations, discharged, ', '.join('%s %d' % x for x in back.items()), paths, len(fullset), ev['coverage']['contracts_total'], evals, wall))
    for u in undec[:30]: print('UNDECIDED', u.replace('\n', ' ')[:500])
    seen = set()
    for k in known_hit:
        if k['what'] not in seen: print('KNOWN-FINDING: property=%s %s' % (prop, k['what'])); seen.add(k['what'])
    for l in lines: print(l)
    shutil.rmtree(tmp, ignore_errors=True)
    if viol: return 1
    if err:
        for e in err: print('ERROR', e)
        return 2
    if obligations == 0 and evals == 0: print('ERROR nothing was explored'); return 2
    return 0
def any_input(tmp, ncon, prop):
    kn = [k for k in known() if k['property'] == prop and k.get('status') != 'fixed']
    for i in range(ncon):
        try:
            for c in json.load(open(tmp + '/con%d.json' % i)):
                v = c['violation']
                if v and not any(re.fullmatch(k['contract'], c['label']) and re.fullmatch(k['check'], v['detail'], re.S) for k in kn): return True
        except Exception: pass
    return False
def replay(path):
    r = json.load(open(path))
    if r['kind'] != 'input':
        print(json.dumps(r, indent=1)[:6000])
        print('no failing input: re-running the proof of', r['label'])
        out = tempfile.mktemp()
        subprocess.run([SYMPY, os.path.join(HERE, 'run_sym.py'), r['property'], out, '--only', r['label']], env=env())
        bad = [o for j in json.load(open(out))['jobs'] for o in j['obl'] if o['status'] == 'refuted']
        os.unlink(out)
        for o in bad: print('FAILED OBLIGATION', o['name'], o['info'][:1000])
        return 1 if bad else 0
    p = subprocess.run([CONPY, os.path.join(HERE, 'run_con.py'), r['property'], '/dev/null', '--seed', str(r['seed']), '--one', '%d:%d:%d' % (r['contract'], r['config'], r['trial'])], env=env())
    return p.returncode
TRUSTED = ['engine/ir.py normal form of terms and engine/symnp.py contracts of numpy operations (both differentially tested against the real numpy on every run: engine/selftest.py)',
           'engine/symrandom.py, symtorch.py: assumed contracts of random sources, scipy and torch operations',
           'engine/loader.py: source transformation of while/for/list comprehension and float/int/bool calls',
           'engine/prove.py: translation to SMT and axiom instances', 'z3 5.x', 'CPython executing the repository functions']
ASSUMED = ['real arithmetic instead of IEEE floating point (NaN and infinities are modelled as special values; rounding is not)',
           'integers are mathematical integers', 'float literals denote the simplest rational within 2.5e-16 relative distance',
           'elements of an array are independent of memory layout; dtype float64 for all real arrays',
           'objective functions are deterministic, act pointwise and do not modify their input unless a contract says otherwise']
if __name__ == '__main__': sys.exit(main())
