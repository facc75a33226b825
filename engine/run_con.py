"""/opt/venv/bin/python run_con.py PROP OUT.json --seed S --trials N --budget B --part i/n : contracts on the real code with real numpy"""
import sys, os, json, argparse
ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('out'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--trials', type=int, default=40)
ap.add_argument('--budget', type=float, default=3.); ap.add_argument('--part', default='0/1'); ap.add_argument('--only', default=''); ap.add_argument('--tier', default='quick')
ap.add_argument('--one', default='')
a = ap.parse_args()
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO); sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
import load_contracts, conkit
cons = load_contracts.load(a.prop)
import cbx
assert os.path.abspath(cbx.__file__).startswith(os.path.abspath(REPO) + os.sep), cbx.__file__
if a.one:      # contract:config:trial
    ci, i, t = map(int, a.one.split(':'))
    st, k, d = conkit.run_one(cons[ci], i, a.seed, t, a.tier)
    print(st, d); sys.exit(1 if st == 'violated' else 0)
part, n = map(int, a.part.split('/'))
out = []; q = 0
for ci, c in enumerate(cons):
    if c.modes == 'sym' or (c.thorough and a.tier != 'thorough'): continue
    for i in range(len(c.configs)):
        q += 1
        if (q - 1) % n != part: continue
        if a.only and a.only not in c.label(i): continue
        r = conkit.run(c, i, a.seed, a.trials, a.budget, a.tier)
        r['contract'] = ci; r['config'] = i
        out.append(r)
json.dump(out, open(a.out, 'w'))
