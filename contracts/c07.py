from api import contract, grid
from common import *
from c06 import AUX

CLS = ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'PolarCBO')
CFG = [dict(cls=c, batch=b, act=a) for c in CLS for b, a in ((None, 'partial'), ('part', 'full'))] + [dict(cls='CBO', batch='full', act='partial'), dict(cls='CBOMemory', batch='full', act='partial'), dict(cls='CBS', batch=None, act='partial')]

def value(k, S, X, *ix):
    """objective value of the dynamic at a stored point (the regularised objective for the combined dynamic)"""
    return S.f.at(X, *ix)

def kwargs(k, cls):
    return dict(constraints=[dict(name='sphere')]) if cls == 'DriftConstrainedCBO' else {}

@contract('C07', CFG)
def step_keeps_the_best(k, cls, batch, act):
    """inductive step: the best energy never increases, bounds every recorded energy and belongs to the best particle.

    Energies are only compared by the code under contract; the value infinity of energies not recorded yet is covered by
    arbitrary reals together with an arbitrary set of runs without a best particle."""
    mem = cls in ('CBOMemory', 'PSO')
    S = Ens(k, cls, act, batch, noise='covariance' if cls == 'CBS' else 'isotropic', warm=0, **kwargs(k, cls))
    dyn = S.dyn; M, N, dd = S.M, S.N, S.dd
    if not k.sym: return history(k, S, cls)
    E = k.array('energy', (M, N)); B = k.array('best_energy', (M,)); P = k.array('best_particle', (M,) + dd)
    unset = k.array('unset', (M,), kind='b')
    dyn.energy = k.snap(E); dyn.best_energy = k.snap(B); dyn.best_particle = k.snap(P)
    val = lambda X, *ix: value(k, S, X, *ix)
    k.assume_forall((M,), lambda i: k.or_(k.at(unset, i), k.eq(val(P, i), k.at(B, i))))
    if mem:
        Y = k.array('y', (M, N) + dd); dyn.y = k.snap(Y)
        k.assume_forall((M, N), lambda i, j: k.eq(val(Y, i, j), k.at(E, i, j)))
        if cls == 'PSO': dyn.v = k.array('v', (M, N) + dd)
    else:
        k.assume_forall((M, N), lambda i, j: k.le(k.at(B, i), k.at(E, i, j)))
    for n in AUX[cls]:
        if n not in ('y',) or not mem:
            if not mem: setattr(dyn, n, k.array(n, (M, N) + dd, nonneg=(cls == 'AdamCBO' and n == 'v')))
    if mem:
        # inner_step is used through its contract (discharged in C15: inner_step_contract)
        def inner_contract():
            S.nodup()
            dyn.x = k.array('x_new', (M, N) + dd); dyn.y = k.array('y_new', (M, N) + dd); dyn.energy = k.array('energy_new', (M, N))
            k.assume_forall((M, N), lambda i, j: k.and_(k.eq(val(dyn.y, i, j), k.at(dyn.energy, i, j)), k.implies(S.updated(i, j), k.le(k.at(dyn.energy, i, j), val(dyn.x, i, j)))))
        dyn.inner_step = inner_contract
    S.step()
    b = lambda i: k.at(dyn.best_energy, i)
    k.forall('never increases', (M,), lambda i: k.le(b(i), k.at(B, i)))
    k.forall('bounds every recorded energy', (M, N), lambda i, j: k.le(b(i), k.at(dyn.energy, i, j)))
    k.forall('kept without improvement', (M,) + dd, lambda i, *l: k.or_(k.lt(b(i), k.at(B, i)), k.eq(k.at(dyn.best_particle, i, *l), k.at(P, i, *l))))
    k.forall('value kept', (M,), lambda i: k.or_(k.lt(b(i), k.at(B, i)), k.eq(b(i), k.at(B, i))))
    k.forall('belongs to the best particle', (M,), lambda i: k.or_(k.and_(k.at(unset, i), k.eq(b(i), k.at(B, i))), k.eq(val(dyn.best_particle, i), b(i))))
    if not mem:
        def rec(p, q):
            i = S.A.run(p)
            return k.le(b(i), val(S.x, i, S.B(i, q)))
        k.forall('not above the evaluated positions', (S.K, S.nc), rec)
    else:
        def rec(p, q):
            i = S.A.run(p)
            return k.implies(S.updated(i, S.U(i, q)), k.le(b(i), val(dyn.x, i, S.U(i, q))))
        k.forall('not above the new positions', (S.K, S.nu), rec)

def history(k, S, cls):
    """real histories: every objective value evaluated during a step is an upper bound of the best energy"""
    import numpy as np
    dyn = S.dyn; M = int(S.M)
    if k.choice([0, 0, 1]): dyn.post_process = k.mod('cbx.dynamics.pdyn').post_process_default(max_thresh=k.choice([1e8, .5]))
    nan = k.choice([0, 0, 0, 1]) and cls not in ('CBS',)
    low = np.full(M, np.inf); prev = np.full(M, np.inf); pp = k.snap(dyn.best_particle)
    if cls in ('CBOMemory', 'PSO'): low = np.array([min(S.f.at(dyn.y, i, j) for j in range(int(S.N))) for i in range(M)])
    for st in range(4):
        m = k.mask('act%d' % st, M, 'some'); S.box[0] = m
        dyn.terminate()
        n0 = len(S.f.calls)
        dyn.step()
        act = np.where(m)[0]
        for c in S.f.calls[n0:]:
            if c.ndim == 3 and c.shape[0] == len(act):
                for p, i in enumerate(act):
                    for j in range(c.shape[1]): low[i] = min(low[i], S.f.at(c, p, j))
        for i in range(M):
            b = dyn.best_energy[i]
            k.check('never increases', b <= prev[i])
            k.check('not above any evaluated value', b <= low[i] + 1e-12)
            if np.isfinite(b): k.check('belongs to the best particle', k.eq(S.f.at(dyn.best_particle, i), b))
            if b == prev[i]: k.check('kept', (dyn.best_particle[i] == pp[i]).all())
        prev = dyn.best_energy.copy(); pp = k.snap(dyn.best_particle)

@contract('C07', [dict(cls=c) for c in CLS + ('CBS',)])
def initial_state(k, cls):
    """before the first step nothing is claimed: energies are infinite, memory positions carry their own energy"""
    S = Ens(k, cls, 'full', k.choice([None]), noise='covariance' if cls == 'CBS' else 'isotropic', warm=0, set_alpha=False, **kwargs(k, cls))
    dyn = S.dyn
    k.forall('best energy', (S.M,), lambda i: k.eq(k.at(dyn.best_energy, i), k.inf))
    if cls in ('CBOMemory', 'PSO'):
        k.forall('energy of the memory', (S.M, S.N), lambda i, j: k.eq(k.at(dyn.energy, i, j), S.f.at(dyn.y, i, j)))
    else:
        k.forall('no energy', (S.M, S.N), lambda i, j: k.eq(k.at(dyn.energy, i, j), k.inf))

@contract('C07', [dict(cls=c, batch=b) for c in ('CBO', 'CBOMemory', 'PSO', 'DriftConstrainedCBO') for b in (None, 'part')], modes='con')
def with_resampling(k, cls, batch):
    """positions changed between steps by a resampling never falsify the reported best value"""
    import numpy as np
    S = Ens(k, cls, 'full', batch, noise='isotropic', warm=0, **kwargs(k, cls), **(dict(sigma_indep=.5, eps_indep=k.choice([1e-3, .5])) if cls == 'DriftConstrainedCBO' else {}))
    dyn = S.dyn
    R = k.mod('cbx.utils.resampling')
    rs = R.resampling([lambda d: np.where(k.rng.random(d.M) < .5)[0]], sigma_indep=k.choice([.1, 3.]), var_name=k.choice(['x', 'y']) if cls in ('CBOMemory', 'PSO') and False else 'x')
    prev = np.full(int(S.M), np.inf)
    for st in range(4):
        dyn.terminate(); dyn.step()
        for i in range(int(S.M)):
            k.check('never increases', dyn.best_energy[i] <= prev[i])
            if np.isfinite(dyn.best_energy[i]): k.check('belongs to the best particle', k.eq(S.f.at(dyn.best_particle, i), dyn.best_energy[i]))
        prev = dyn.best_energy.copy()
        rs(dyn)
