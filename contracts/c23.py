from api import contract, grid
from common import *

def where(k, m): return k.mod('numpy').where(m)[0]
def selected(k, idx, i):
    return k.occurs(k.shape(idx)[0], lambda p: k.at(idx, p), i)

def ensemble(k, cls, multi, act='partial', **kw):
    return Ens(k, cls, act, None, noise='isotropic', multi=multi, **kw)

@contract('C23', [dict(cls=c, rules=r, multi=m, first=f) for f in (True, False) for c, r, m in [('CBO', 1, False), ('CBO', 2, False), ('CBO', 3, False), ('CBO', 2, True), ('CBOMemory', 2, False), ('MirrorCBO', 1, True), ('AdamCBO', 2, False)]])
def apply(k, cls, rules, multi, first):
    """exactly the union of the selected runs is perturbed, once each, whatever the rules return (duplicates and empty selections included)"""
    S = ensemble(k, cls, multi, act='full' if k.sym else 'partial')
    dyn = S.dyn; M, N, dd = S.M, S.N, S.dd
    dyn.terminate()
    R = k.mod('cbx.utils.resampling')
    sel = [k.mask('sel%d' % r, M, 'any') for r in range(rules)]
    box = Box(sel)
    dup = k.choice([False, True])
    def rule(r):
        def f(d):
            w = where(k, box[r])
            if not k.sym and dup: w = k.mod('numpy').concatenate([w, w])[::-1]
            return w
        return f
    sig = k.real('sigma_indep')
    rs = R.resampling([rule(r) for r in range(rules)], sigma_indep=sig)
    if not first:           # a later call: arbitrary counts
        cnt = k.array('counts', (M,)); rs.num_resampling = k.snap(cnt)
    for rep in range(1 if k.sym else 3):
        un = box[0]
        for m in box[1:]: un = un | m
        G = k.active(un)
        x0 = k.snap(dyn.x); s0 = len(S.smp.samples)
        n0 = k.snap(rs.num_resampling) if rep or not first else None
        other = {n: k.snap(getattr(dyn, n)) for n in ('best_energy', 'best_particle', 'num_f_eval') + (('y', 'energy') if cls == 'CBOMemory' else ())}
        rs(dyn)
        if k.sym: any_sel = len(S.smp.samples) > s0
        else: any_sel = bool(un.any()); k.check('the sampler is asked once, and only when a run is selected', len(S.smp.samples) - s0 == int(any_sel))
        if any_sel:
            xi = S.smp.samples[s0]
            k.check('one sample', len(S.smp.samples) == s0 + 1)
            k.check_shape('one sample per selected run and particle', xi, (G.K, N) + dd)
            k.forall('perturbation', (M, N) + dd, lambda i, j, *l: k.when(k.at(un, i), lambda: k.eq(k.at(dyn.x, i, j, *l),
                     k.at(x0, i, j, *l) + sig * k.sqrt(S.dt) * k.at(xi, G.pos(i), j, *l))))
        else: k.forall('nothing was selected', (M,), lambda i: k.not_(k.at(un, i)))
        k.forall('other runs', (M, N) + dd, lambda i, j, *l: k.implies(k.not_(k.at(un, i)), k.eq(k.at(dyn.x, i, j, *l), k.at(x0, i, j, *l))))
        k.forall('count', (M,), lambda i: k.eq(k.at(rs.num_resampling, i), (k.at(n0, i) if n0 is not None else 0) + k.ite(k.at(un, i), 1, 0)))
        for n, v in other.items(): k.forall(n + ' unchanged', k.shape(v), lambda *i: k.ieq(k.at(getattr(dyn, n), *i), k.at(v, *i)))
        box[0] = k.mask('sel_next', M, 'any')

@contract('C23', grid(var=['y'], multi=[False, True]))
def other_variable(k, var, multi):
    """the configured variable is perturbed instead of the positions"""
    S = ensemble(k, 'CBOMemory', multi); dyn = S.dyn
    dyn.terminate()
    R = k.mod('cbx.utils.resampling'); sel = k.mask('sel', S.M, 'any'); G = k.active(sel)
    sig = k.real('sigma_indep'); rs = R.resampling([lambda d: where(k, sel)], sigma_indep=sig, var_name=var)
    x0, y0, s0 = k.snap(dyn.x), k.snap(dyn.y), len(S.smp.samples)
    rs(dyn)
    if len(S.smp.samples) > s0:
        k.forall('perturbation', (S.M, S.N) + S.dd, lambda i, j, *l: k.eq(k.at(dyn.y, i, j, *l), k.at(y0, i, j, *l) + k.sel(k.at(sel, i), lambda: sig * k.sqrt(S.dt) * k.at(S.smp.samples[s0], G.pos(i), j, *l), lambda: 0)))
    k.forall('positions', (S.M, S.N) + S.dd, lambda i, j, *l: k.eq(k.at(dyn.x, i, j, *l), k.at(x0, i, j, *l)))

@contract('C23', grid(rules=[1, 2]))
def custom_apply(k, rules):
    """a user function receives exactly the selected runs, each once, in increasing order, and only if there are any"""
    S = ensemble(k, 'CBO', False); dyn = S.dyn
    R = k.mod('cbx.utils.resampling'); sel = [k.mask('sel%d' % r, S.M, 'any') for r in range(rules)]
    got = []
    rs = R.resampling([(lambda d, m=m: where(k, m)) for m in sel], apply=lambda d, idx, **kw: got.append((d, idx, kw)))
    x0 = k.snap(dyn.x)
    rs(dyn)
    un = sel[0]
    for m in sel[1:]: un = un | m
    G = k.active(un)
    if got:
        d, idx, kw = got[0]
        k.check('called once with the dynamic', len(got) == 1 and d is dyn)
        k.check_shape('each run once', idx, (G.K,))
        k.forall('the selected runs', (G.K,), lambda p: k.ieq(k.at(idx, p), G.run(p)))
    else: k.forall('nothing was selected', (S.M,), lambda i: k.not_(k.at(un, i)))
    k.forall('default not applied', k.shape(x0), lambda *i: k.eq(k.at(dyn.x, *i), k.at(x0, *i)))
    k.forall('count', (S.M,), lambda i: k.eq(k.at(rs.num_resampling, i), k.ite(k.at(un, i), 1, 0)))

def same_set(k, name, idx, M, cond):
    """idx lists exactly the runs with cond, each once"""
    k.forall(name, (M,), lambda i: k.iff(selected(k, idx, i), cond(i)))
    k.forall(name + ' (valid)', (k.shape(idx)[0],), lambda p: k.and_(k.le(0, k.at(idx, p)), k.lt(k.at(idx, p), M), cond(k.at(idx, p)) if k.sym else cond(int(k.at(idx, p)))))

@contract('C23', grid(act=['full', 'partial'], multi=[False, True]))
def update_norm_rule(k, act, multi):
    S = ensemble(k, 'CBO', multi, act); dyn = S.dyn
    th = k.real('thresh', pos=True)
    rule = k.mod('cbx.utils.resampling').ensemble_update_resampling(th)
    S.step(modular=k.sym and multi)
    x = k.snap(dyn.x)
    nrm = k.div(1, S.N) if k.sym else 1. / int(S.N)
    def last(i): return k.sqrt(k.Sum((S.N,) + S.dd, lambda j, *l: (k.at(x, i, j, *l) - k.at(S.x, i, j, *l))**2)) * nrm
    if not k.sym or not multi: k.forall('recorded update', (S.M,), lambda i: k.eq(k.at(dyn.update_diff, i), last(i)))
    u = k.array('update', (S.M,), nonneg=True)
    dyn.update_diff = k.snap(u)
    same_set(k, 'selected', rule(dyn), S.M, lambda i: k.lt(k.at(u, i), th))
    dyn.update_diff = k.build((S.M,), lambda i: th)         # exactly at the threshold: not below it
    same_set(k, 'at the threshold', rule(dyn), S.M, lambda i: False)

@contract('C23', [dict()])
def loss_rule(k):
    """wait counts the calls since the best energy improved or the run was selected last"""
    R = k.mod('cbx.utils.resampling')
    M = k.dim('M', hi=5); w = k.dim('wait_thresh', hi=4)
    class Dyn: pass
    dyn = Dyn(); dyn.M = M
    rule = R.loss_update_resampling(wait_thresh=w)
    best = k.array('best0', (M,))
    dyn.best_energy = k.snap(best)
    # first call: the first finite best energy counts as an improvement
    r = rule(dyn)
    same_set(k, 'first call', r, M, lambda i: False)
    k.forall('first wait', (M,), lambda i: k.ieq(k.at(rule.wait, i), 0))
    k.forall('first best', (M,), lambda i: k.eq(k.at(rule.best_energy, i), k.at(best, i)))
    # any later call: arbitrary counters within the invariant 0 <= wait < wait_thresh
    if k.sym:
        wait = k.array('wait', (M,), kind='i'); k.assume_forall((M,), lambda i: k.and_(k.le(0, k.at(wait, i)), k.lt(k.at(wait, i), w)))
        old = k.array('old', (M,))
    else:
        np = k.mod('numpy'); wait = k.rng.integers(0, int(w), int(M)); old = k.array('old', (M,))
    rule.wait = k.snap(wait); rule.best_energy = k.snap(old)
    for step in range(2):
        new = k.array('best_%d' % step, (M,))
        dyn.best_energy = k.snap(new)
        r = rule(dyn)
        imp = lambda i: k.lt(k.at(new, i), k.at(old, i))
        full = lambda i: k.and_(k.not_(imp(i)), k.ieq(k.at(wait, i) + 1, w))
        same_set(k, 'selected', r, M, full)
        k.forall('wait', (M,), lambda i: k.ieq(k.at(rule.wait, i), k.ite(k.or_(imp(i), full(i)), 0, k.at(wait, i) + 1)))
        k.forall('invariant', (M,), lambda i: k.and_(k.le(0, k.at(rule.wait, i)), k.lt(k.at(rule.wait, i), w)))
        k.forall('reference', (M,), lambda i: k.eq(k.at(rule.best_energy, i), k.ite(imp(i), k.at(new, i), k.at(old, i))))
        k.forall('argument', (M,), lambda i: k.eq(k.at(dyn.best_energy, i), k.at(new, i)))
        wait, old = k.snap(rule.wait), k.snap(rule.best_energy)
        # the rule keeps its own copy of the energies
        dyn.best_energy[...] = dyn.best_energy - 5.

@contract('C23', [dict(patience=p, calls=c, act=a, multi=m) for p in (1, 2, 3) for c in range(1, p + 3) for a in ('full', 'partial') for m in (False, True) if not (m and p == 3)]
          + [dict(patience=2, calls=3, act='partial', multi=3), dict(patience=1, calls=2, act='full', multi=3)])
def stagnation_rule(k, patience, calls, act, multi):
    """active runs whose consensus moved less than the threshold in each of the last `patience` calls (runs do not become active again)"""
    S = ensemble(k, 'CBO', multi, act); dyn = S.dyn; M, dd = S.M, S.dd
    th = k.real('thresh', pos=True)
    rule = k.mod('cbx.utils.resampling').consensus_stagnation(patience=patience, update_thresh=th)
    masks, cons, act_ = [], [], []
    for c in range(calls):
        # runs terminate before the last call (symbolically: at most one change, any number of runs)
        m = S.act if c == 0 or (k.sym and (c < calls - 1 or act == 'full')) else masks[-1] & k.mask('act%d' % c, M, 'any')
        S.box[0] = m
        if c == 0 or m is not masks[-1]: dyn.terminate()
        A = k.active(m)
        C = k.array('cons%d' % c, (A.K, 1) + dd, lo=-1.2, hi=1.2)
        dyn.consensus = k.snap(C)
        masks.append(m); cons.append(C); act_.append(A)
        r = rule(dyn)
        def diff(i, a): return k.sqrt(k.Sum(dd, lambda *l: (k.at(cons[a], act_[a].pos(i), 0, *l) - k.at(cons[a - 1], act_[a - 1].pos(i), 0, *l))**2))
        def cond(i):
            if c == 0: return False
            return k.when(True, lambda: k.and_(A.has(i), *[k.lt(diff(i, a), th) for a in range(max(1, c - patience + 1), c + 1)])) if k.sym or A.has(i) else False
        if not k.sym or c == calls - 1: same_set(k, 'call %d' % c, r, M, cond)
        dyn.consensus[...] = dyn.consensus + 1.       # the rule keeps its own copy

@contract('C23', grid(patience=[1, 2, 3, 5], multi=[False, True, 3]), modes='con')
def stagnation_history(k, patience, multi):
    """long histories with runs terminating at any time"""
    stagnation_rule(k, patience, patience + 4, 'partial', multi)

@contract('C23', grid(act=['full', 'partial']))
def best_consensus(k, act):
    """tracking keeps, for every run resampled while active, the consensus of lowest energy seen at these resamplings"""
    S = ensemble(k, 'CBO', False, act); dyn = S.dyn; M, dd = S.M, S.dd
    sel = k.mask('sel', M, 'any'); box = Box([sel])
    rs = k.mod('cbx.utils.resampling').resampling([lambda d: where(k, box[0])], sigma_indep=k.real('sigma_indep'), track_best_consensus=True)
    dyn.terminate()
    best = None
    for c in range(2 if k.sym else 4):
        C = k.array('cons%d' % c, (S.K, 1) + dd); dyn.consensus = k.snap(C)
        if c: box[0] = k.mask('sel%d' % c, M, 'any')
        rs(dyn)
        m = box[0]
        if not hasattr(rs, 'best_consensus'):
            k.forall('no active run was selected', (M,), lambda i: k.not_(k.and_(S.A.has(i), k.at(m, i))))
            continue
        hit = lambda i: k.and_(S.A.has(i), k.at(m, i))
        E = lambda i: S.f.atfn(dd, lambda *l: k.at(C, S.A.pos(i), 0, *l))
        if best is None:
            k.forall('energy', (M,), lambda i: k.when(hit(i), lambda: k.eq(k.at(rs.best_consensus_energy, i, 0), E(i))))
            k.forall('point', (M,) + dd, lambda i, *l: k.when(hit(i), lambda: k.eq(k.at(rs.best_consensus, i, 0, *l), k.at(C, S.A.pos(i), 0, *l))))
        else:
            b0, p0 = best
            better = lambda i: k.and_(hit(i), k.lt(E(i), k.at(b0, i, 0))) if k.sym or hit(i) else False
            k.forall('energy', (M,), lambda i: k.ieq(k.at(rs.best_consensus_energy, i, 0), k.ite(better(i), E(i) if k.sym or hit(i) else 0, k.at(b0, i, 0))))
            k.forall('point', (M,) + dd, lambda i, *l: k.eq(k.at(rs.best_consensus, i, 0, *l), k.ite(better(i), k.at(C, S.A.pos(i), 0, *l) if k.sym or hit(i) else 0, k.at(p0, i, 0, *l))))
        if k.sym:        # recorded energies are finite from now on: arbitrary values
            rs.best_consensus_energy = k.array('bce%d' % c, (M, 1)); rs.best_consensus = k.array('bc%d' % c, (M, 1) + dd)
        best = k.snap(rs.best_consensus_energy), k.snap(rs.best_consensus)
