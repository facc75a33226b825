"""python3-vt run_sym.py PROP OUT.json --tier T [--only SUBSTR] : prove all contracts of a property on /repo's current source"""
import sys, os, json, time, argparse
ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('out'); ap.add_argument('--tier', default='quick'); ap.add_argument('--only', default='')
ap.add_argument('--workers', type=int, default=7); ap.add_argument('--budget', type=float, default=0); ap.add_argument('--total', type=float, default=0)
a = ap.parse_args()
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
import valuation          # uses the real numpy
for m in [m for m in sys.modules if m == 'numpy' or m.startswith('numpy.')]: del sys.modules[m]
import load_contracts
import loader
loader.install()
import core, ir
core.Ctx.cur = core.Ctx()
res = dict(prop=a.prop, jobs=[], import_error=None)
def preload():
    import importlib
    for m in ('cbx', 'cbx.dynamics', 'cbx.noise', 'cbx.correction', 'cbx.scheduler', 'cbx.objectives', 'cbx.constraints', 'cbx.regularizers',
              'cbx.utils.history', 'cbx.utils.objective_handling', 'cbx.utils.particle_init', 'cbx.utils.resampling', 'cbx.utils.success',
              'cbx.utils.termination', 'cbx.utils.torch_utils'):
        try: importlib.import_module(m)
        except Exception as e: res.setdefault('import_errors', []).append('%s: %r' % (m, e))
sys.setprofile(loader.profile)
preload()
sys.setprofile(None)
loader.EXECUTED.clear()
import symkit
cons = load_contracts.load(a.prop)
jobs = []
for ci, c in enumerate(cons):
    if c.modes == 'con' or (c.thorough and a.tier != 'thorough'): continue
    for i in range(len(c.configs)):
        if a.only and a.only not in c.label(i): continue
        jobs.append((ci, i))
if a.tier == 'thorough':
    import prove
    prove.TIMEOUT[0] = 60000
def work(j, path):
    ci, i = j
    c = cons[ci]
    b = a.budget or (c.timeout or 60) * (6 if a.tier == 'thorough' else 1)
    def go():
        r = symkit.explore(c, i, b, a.tier)
        r['contract'] = ci; r['config'] = i
        json.dump(r, open(path, 'w'))
    t = threading.Thread(target=go); t.start(); t.join()
run = {}
pend = sorted(jobs, key=lambda j: -cons[j[0]].weight)
tmp = a.out + '.d'
os.makedirs(tmp, exist_ok=True)
tend = time.time() + a.total if a.total else None
def undecided(j, why):
    res['jobs'].append(dict(label=cons[j[0]].label(j[1]), contract=j[0], config=j[1], paths=0, obl=[], reach=0, wall=0, executed=[], solver={}, undecided=[why], infeasible=0))
while pend or run:
    if (tend and time.time() > tend) or os.path.exists(a.out + '.stop'):
        import signal
        why = 'the prover was stopped: ' + ('a failing input is known' if os.path.exists(a.out + '.stop') else 'total time limit')
        for pid, (j, p, dl) in run.items():
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); undecided(j, why)
        for j in pend: undecided(j, why)
        break
    while pend and len(run) < a.workers:
        j = pend.pop(0)
        p = os.path.join(tmp, '%d_%d.json' % j)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                work(j, p); code = 0
            except BaseException as e:
                import traceback; traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush(); os._exit(code)
        c = cons[j[0]]
        run[pid] = (j, p, time.time() + 30 + 1.5 * (a.budget or (c.timeout or 60) * (6 if a.tier == 'thorough' else 1)))
    try: pid, st = os.waitpid(-1, os.WNOHANG)
    except ChildProcessError: pid = 0
    if pid:
        j, p, dl = run.pop(pid)
        if os.path.exists(p) and st == 0:
            res['jobs'].append(json.load(open(p)))
        else:
            undecided(j, 'prover process ended with status %s' % st)
        continue
    now = time.time()
    for pid, (j, p, dl) in list(run.items()):
        if now > dl:
            import signal
            os.kill(pid, signal.SIGKILL)
    time.sleep(0.02)
for f in os.listdir(tmp): os.unlink(os.path.join(tmp, f))
os.rmdir(tmp)
json.dump(res, open(a.out, 'w'))
