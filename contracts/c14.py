from api import contract, grid
from common import *

WAYS = ('class', 'dict', 'string')
NAMES = dict(energy_tol=('energy-tol', 'energy tol', 'energy_tol'), diff_tol=('diff-tol', 'diff tol', 'diff_tol'), max_eval=('max-eval', 'max eval', 'max_eval'),
             max_it=('max-it', 'max it', 'max_it'), max_time=('max-time', 'max time', 'max_time'))
DEFAULT = dict(energy_tol=1e-7, diff_tol=1e-7, max_eval=1000, max_it=1000, max_time=10.)

def value(k, crit):
    if crit in ('max_it', 'max_eval'): return k.int('limit', hi=30)
    return k.real('limit', lo=-1., hi=2.)

@contract('C14', [dict(crit=c, way=w, spelling=s, batch=b) for c in DEFAULT for w in WAYS for s in (0, 1, 2) for b in (None, 'part') if (w != 'class' or s == 0) and (b is None or c == 'max_eval' and s == 0)])
def criterion(k, crit, way, spelling, batch):
    """one verdict per run, true exactly when the limit is reached"""
    T = k.mod('cbx.utils.termination')
    S = Ens(k, 'CBO', 'full', batch, warm=0)
    dyn = S.dyn; M, N = S.M, S.N
    lim = value(k, crit) if way != 'string' else DEFAULT[crit]
    if way == 'class': t = getattr(T, crit + '_term')(**{crit: lim})
    elif way == 'dict': t = T.select_term({'name': NAMES[crit][spelling], crit: lim})
    else: t = T.select_term(NAMES[crit][spelling])
    # arbitrary state
    E = k.array('energy', (M, N), lo=-1., hi=2.); dyn.energy = k.snap(E); dyn.update_best_cur_particle()
    ud = k.array('update_diff', (M,), nonneg=True, lo=0., hi=2.); dyn.update_diff = k.snap(ud)
    ev = k.array('evaluations', (M,), kind='i', nonneg=True); dyn.num_f_eval = k.snap(ev)
    it = k.int('it', hi=30); tm = k.real('t', nonneg=True, lo=0., hi=2.)
    if not k.sym:
        if k.rng.random() < .3: it = int(lim) if crit == 'max_it' else it
        if k.rng.random() < .3: tm = float(lim) if crit == 'max_time' else tm
        if crit in ('energy_tol', 'diff_tol') and k.rng.random() < .3:      # exactly at the tolerance
            if crit == 'energy_tol': E = E - E.min(axis=-1, keepdims=True) + lim; dyn.energy = k.snap(E); dyn.update_best_cur_particle()
            else: ud = 0. * ud + lim; dyn.update_diff = k.snap(ud)
        elif way == 'string':
            sc = k.choice([1e-7, 1.]); E = E * sc; dyn.energy = k.snap(E); dyn.update_best_cur_particle(); ud = ud * sc; dyn.update_diff = k.snap(ud)
            it = k.choice([it, 999, 1000, 1001]); tm = k.choice([tm, 9.99, 10., 11.]); ev = ev + k.choice([0, 980, 990, 1000]); dyn.num_f_eval = k.snap(ev)
    dyn.it, dyn.t = it, tm
    r = t(dyn)
    k.check_shape('one verdict per run', r, (M,))
    b = S.b if batch else N
    def spec(i):
        if crit == 'energy_tol': return k.lt(k.Min(N, lambda j: k.at(E, i, j)), lim)
        if crit == 'diff_tol': return k.lt(k.at(ud, i), lim)
        if crit == 'max_eval': return k.lt(lim, k.at(ev, i) + b)
        if crit == 'max_it': return k.le(lim, it)
        return k.le(lim, tm)
    k.forall('verdict', (M,), lambda i: k.iff(k.at(r, i), spec(i)))
    k.forall('state untouched', (M,), lambda i: k.and_(k.ieq(k.at(dyn.num_f_eval, i), k.at(ev, i)), k.eq(k.at(dyn.update_diff, i), k.at(ud, i))))
    k.check('counters untouched', k.and_(k.ieq(dyn.it, it), k.eq(dyn.t, tm)))

@contract('C14')
def no_iteration_limit(k):
    T = k.mod('cbx.utils.termination')
    S = Ens(k, 'CBO', 'full', None, warm=0)
    S.dyn.it = k.int('it')
    r = T.max_it_term(max_it=None)(S.dyn)
    k.check_shape('one verdict per run', r, (S.M,))
    k.forall('never', (S.M,), lambda i: k.not_(k.at(r, i)))

@contract('C14', [dict(act=a, cls=c) for a in ('full', 'partial') for c in ('CBO', 'CBOMemory', 'CBS')])
def stagnation_update(k, act, cls):
    """with a full window: the newest entry is replaced by the consensus energy of each active run, the verdict is std < threshold"""
    T = k.mod('cbx.utils.termination')
    if not k.sym: return stagnation_history(k, T, cls)
    S = Ens(k, cls, act, None, noise='covariance' if cls == 'CBS' else 'constant')
    dyn = S.dyn; M = S.M
    P = k.dim('P'); th = k.real('thresh', pos=True)
    for spec in (T.energy_stagnation_term(patience=P, std_thresh=th), T.select_term({'name': 'energy stagnation', 'patience': P, 'std_thresh': th})):
        t = spec
        if not hasattr(t, 'losses'): k.unsupported('window buffer not found')
        L = k.array('losses', (P, M)); t.losses = k.snap(L)
        dyn.it = it = k.int('it')
        ev = k.array('evaluations', (M,), kind='i'); dyn.num_f_eval = k.snap(ev)
        S.act_now()
        dyn.consensus = k.array('consensus', (S.K, 1) + S.dd); c0 = k.snap(dyn.consensus)
        r = t(dyn)
        k.check_shape('one verdict per run', r, (M,))
        slot = it % P
        new = lambda p, i: k.ite(k.and_(S.A.has(i), k.ieq(p, slot)), lambda: S.f.at(c0, S.A.pos(i), 0), lambda: k.at(L, p, i))
        k.forall('window', (P, M), lambda p, i: k.eq(k.at(t.losses, p, i), new(p, i)))
        w = k.snap(t.losses)
        mean = lambda i: k.div(k.Sum((P,), lambda p: k.at(w, p, i)), P)
        std = lambda i: k.sqrt(k.div(k.Sum((P,), lambda p: (k.at(w, p, i) - mean(i)) * (k.at(w, p, i) - mean(i))), P))
        k.forall('verdict', (M,), lambda i: k.iff(k.at(r, i), k.lt(std(i), th)))
        k.forall('evaluations charged', (M,), lambda i: k.ieq(k.at(dyn.num_f_eval, i), k.at(ev, i) + k.ite(S.A.has(i), 1, 0)))

def stagnation_history(k, T, cls):
    """whole histories of partly terminated ensembles"""
    import numpy as np
    D = k.mod('cbx.dynamics')
    M, N, d = int(k.dim('M', hi=4)), int(k.dim('N', lo=2, hi=5)), int(k.dim('d', hi=3))
    P = int(k.dim('P', hi=5)); th = k.choice([1e-9, 1e-2, .3, 2.])
    stop = k.rng.integers(1, 12, size=M)                 # iteration at which another criterion ends the run
    f = k.objective(1)
    t = k.choice([T.energy_stagnation_term(patience=P, std_thresh=th), T.select_term({'name': 'energy-stagnation', 'patience': P, 'std_thresh': th})])
    kw = dict(noise='covariance') if cls == 'CBS' else {}
    verdicts = []
    def rec(dyn):
        v = t(dyn); verdicts.append(np.array(v)); return v
    dyn = getattr(D, cls)(f, f_dim='3D', x=k.array('x0', (M, N, d)), verbosity=0, check_f_dims=False, dt=k.choice([.01, .5, 1.]), sigma=k.choice([0., .3]),
                          term_criteria=[rec, lambda dyn: dyn.it >= stop], **kw)
    hist = [[] for _ in range(M)]
    for n in range(10):
        before = [int(i) for i in dyn.active_runs_idx]
        if n:
            e = [float(f.at(dyn.consensus, p, 0)) for p in range(len(before))]
            for p, i in enumerate(before): hist[i].append(e[p])
        done = dyn.terminate()
        v = verdicts[-1]
        k.check('one verdict per run', v.shape == (M,))
        for i in range(M):
            if i not in before: continue
            full = len(hist[i]) >= P
            s = np.std(hist[i][-P:]) if full else np.inf
            if abs(s - th) > 1e-6 * th + 1e-13: k.check('verdict', bool(v[i]) == bool(s < th))
        if done: break
        dyn.step()

@contract('C14')
def stagnation_before_first_step(k):
    T = k.mod('cbx.utils.termination'); D = k.mod('cbx.dynamics')
    M = k.dim('M', hi=4)
    dyn = D.CBO(k.objective(1), f_dim='3D', x=k.array('x0', (M, 3, 2)), verbosity=0, check_f_dims=False)
    r = T.select_term('energy_stagnation')(dyn)
    k.check_shape('shape', r, (M,))
    k.forall('verdict', (M,), lambda i: k.not_(k.at(r, i)))

@contract('C14')
def selection(k):
    """callables are used as they are, unnamed dictionaries are rejected, unknown names raise"""
    T = k.mod('cbx.utils.termination')
    c = lambda dyn: None
    k.check('callable', T.select_term(c) is c)
    k.raises('unnamed', lambda: T.select_term({'max_it': 3}), ValueError)
    k.raises('unknown', lambda: T.select_term('no such criterion'), KeyError)
    for name, ns in list(NAMES.items()) + [('energy_stagnation', ('energy-stagnation', 'energy stagnation', 'energy_stagnation'))]:
        for n in ns:
            k.check('string', type(T.select_term(n)) is getattr(T, name + '_term'))
            k.check('dictionary', type(T.select_term({'name': n})) is getattr(T, name + '_term'))

@contract('C14', grid(way=['objects', 'dictionaries', 'default', 'max_it']))
def in_dynamic(k, way):
    """the criteria given to a dynamic are the ones evaluated"""
    T = k.mod('cbx.utils.termination'); D = k.mod('cbx.dynamics')
    M, N = k.dim('M', hi=4), k.dim('N', hi=4)
    lim = k.int('limit', lo=1, hi=6)
    kw = dict(objects=dict(term_criteria=[T.max_it_term(lim)]), dictionaries=dict(term_criteria=[{'name': 'max-it', 'max_it': lim}, {'name': 'max time', 'max_time': k.inf}]),
              default={}, max_it=dict(max_it=lim))[way]
    dyn = D.CBO(k.objective(1), f_dim='3D', x=k.array('x0', (M, N, 2)), verbosity=0, check_f_dims=False, **kw)
    if way == 'default': lim = 1000
    dyn.it = it = k.int('it', hi=8) if k.sym or way != 'default' else k.choice([3, 999, 1000, 1001])
    r = dyn.terminate()
    k.check('terminated', k.iff(r, k.le(lim, it)))
    k.check('active', k.implies(k.lt(it, lim), k.ieq(dyn.num_active_runs, M)))

def minimal_energy(k, dyn):
    """the energy compared with the tolerance"""
    T = k.mod('cbx.utils.termination'); tol = k.real('tol')
    E = lambda i: k.Min(dyn.N, lambda j: k.at(dyn.energy, i, j))
    r = T.energy_tol_term(tol)(dyn)
    k.forall('current minimal energy', (dyn.M,), lambda i: [('value', k.eq(k.at(dyn.f_min, i), E(i))), ('verdict', k.iff(k.at(r, i), k.lt(E(i), tol)))])

@contract('C14', [dict(cls=c, act=a, batch=b, multi=m) for c in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'PolarCBO', 'CBS')
                  for a, b, m in (('partial', None, False), ('full', 'part', False)) + ((('partial', None, 3),) if c in ('CBO', 'PSO') else ())
                  if not (c == 'CBS' and b)], weight=2)
def last_update(k, cls, act, batch, multi):
    """the update compared with the tolerance: the Frobenius distance of the ensemble of a run to the one before the step, per particle"""
    con = dict(constraints=[dict(name='sphere')]) if cls == 'DriftConstrainedCBO' else {}
    S = Ens(k, cls, act, batch, multi, noise='covariance' if cls == 'CBS' else 'constant', **con)
    dyn = S.dyn; M, N, dd = S.M, S.N, S.dd
    if not k.sym:
        for _ in range(k.choice([0, 0, 1, 2])):
            S.step(); S.x = k.snap(dyn.x)
        S.step()
    else:           # the positions after the inner step (and resampling) are arbitrary
        dyn.terminate(); dyn.pre_step(); dyn.inner_step()
        dyn.x = k.array('x_new', (M, N) + dd); dyn.energy = k.array('energy_new', (M, N)); dyn.post_step()
    x1 = k.snap(dyn.x); minimal_energy(k, dyn)
    k.check_shape('one value per run', dyn.update_diff, (M,))
    k.forall('last update', (M,), lambda i: k.eq(k.at(dyn.update_diff, i), k.div(k.sqrt(k.Sum((N,) + dd, lambda j, *l: (k.at(x1, i, j, *l) - k.at(S.x, i, j, *l))**2)), N)))

@contract('C14', grid(base=['ParticleDynamic', 'CBXDynamic'], multi=[False, True]))
def last_update_of_own_dynamics(k, base, multi):
    """the same for dynamics defined by the user, which set the previous positions and replace the positions"""
    P = k.mod('cbx.dynamics.pdyn'); B = getattr(P, base)
    M, N = k.dim('M', hi=4), k.dim('N', hi=4); dd = (k.dim('d1', hi=2), k.dim('d2', hi=2)) if multi else (k.dim('d', hi=3),)
    X = [k.array('x%d' % a, (M, N) + dd) for a in range(3)]; E = k.array('energy', (M, N))
    class Own(B):
        n = 0
        def pre_step(self): self.x_old = self.copy(self.x)
        def inner_step(self):
            self.n += 1; self.x = k.snap(X[self.n]); self.energy = k.snap(E)
    dyn = Own(k.objective(len(dd)), f_dim='3D', x=X[0], verbosity=0, check_f_dims=False, post_process=lambda d: None)
    for a in (1, 2):
        dyn.step()
        k.forall('last update %d' % a, (M,), lambda i: k.eq(k.at(dyn.update_diff, i), k.div(k.sqrt(k.Sum((N,) + dd, lambda j, *l: (k.at(X[a], i, j, *l) - k.at(X[a - 1], i, j, *l))**2)), N)))
        if base == 'CBXDynamic': minimal_energy(k, dyn)
        k.check('step number', k.ieq(dyn.it, a))
