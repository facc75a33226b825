from api import contract, grid
from common import *
import c19
from c19 import Spec

CF = [('full', None, 'isotropic'), ('partial', None, 'anisotropic'), ('partial', 'part', 'isotropic'), ('full', 'full', 'anisotropic'), ('partial', 'concat', 'constant')]
KS = {'none': [], 'sphere': ['sphere'], 'plane': ['plane'], 'quadric': ['quadric'], 'two': ['sphere', 'plane'], 'three': ['plane', 'quadric', 'plane']}

def start(k, cls, cons, act, batch, noise, **kw):
    d = k.dim('d', hi=3)
    cs = [Spec(k, t, d, str(n)) for n, t in enumerate(KS[cons])]
    S = Ens(k, cls, act, batch, noise=noise, dd=(d,), constraints=[c.con for c in cs] if cs else k.choice([None, []]), **kw)
    return S, cs, d

@contract('C20', [dict(cons=c, act=a, batch=b, noise=n) for c in KS for a, b, n in (CF if c in ('sphere', 'none') else CF[1:3] if c != 'three' else CF[1:2])])
def drift_constrained(k, cons, act, batch, noise):
    """x - z with (I + dt/eps sum Hess g^2) z = lambda dt (x - c) + dt/eps sum grad g^2 + sigma noise"""
    eps = k.real('eps', pos=True)
    S, cs, d = start(k, 'DriftConstrainedCBO', cons, act, batch, noise, eps=eps)
    dyn = S.dyn
    S.step(modular=True)
    X = S.x; fac = k.div(S.dt, eps)
    tot = lambda f: sum((f(c) for c in cs), 0)
    def f(p, q, i, j, l):
        l, = l
        new = dyn.x
        z = lambda m: k.at(X, i, j, m) - k.at(new, i, j, m)
        k.use_solve(z(l), l)
        dr = lambda m: S.drift(i, j, m)
        H = lambda m: tot(lambda c: 2 * c.grad(X, i, j, l) * c.grad(X, i, j, m) + 2 * c.g(X, i, j) * c.hess(l, m))
        rhs = S.lam * S.dt * dr((l,)) + fac * tot(lambda c: 2 * c.g(X, i, j) * c.grad(X, i, j, l)) + S.sig * S.noise(noise, p, q, (l,), dr)
        return k.eq(z(l) + fac * k.Sum((d,), lambda m: H(m) * z(m)), rhs)
    S.upd('system', f)
    S.frame('others', dyn.x, X)

@contract('C20', [dict(cons=c, act=a, batch=b, noise=n) for c in ('none', 'sphere', 'plane', 'quadric') for a, b, n in (CF if c in ('sphere', 'none') else CF[1:3])])
def combined(k, cons, act, batch, noise):
    """(I + 4 dt/eps g A) z = x - lambda dt (x - c) + sigma noise - 2 dt/eps g b ; consensus of the regularised objective"""
    eps, nu = k.real('eps', pos=True), k.real('nu', pos=True)
    if not k.sym and k.choice([0, 0, 1]): eps = 1e16
    S, cs, d = start(k, 'RegCombinationCBO', cons, act, batch, noise, eps=eps, nu=nu)
    dyn = S.dyn
    S.step(modular=True)
    X = S.x; fac = k.div(S.dt, eps)
    g2 = (lambda i, j: cs[0].g(X, i, j) * cs[0].g(X, i, j)) if cs else lambda i, j: 0
    E = lambda i, j: S.F(i, j) + k.div(1, nu) * g2(i, j)
    huge = k.le(1e15, eps)
    def f(p, q, i, j, l):
        l, = l
        new = dyn.x
        z = lambda m: k.at(new, i, j, m)
        k.use_solve(z(l), l)
        dr = lambda m: k.at(X, i, j, *m) - S.gmean(i, m, E)
        rhs = k.at(X, i, j, l) - S.lam * S.dt * dr((l,)) + S.sig * S.noise(noise, p, q, (l,), dr)
        if not cs: return k.eq(z(l), rhs)
        c = cs[0]; g = c.g(X, i, j)
        if c.kind == 'sphere' and k.sym: k.assume(k.lt(0, 1 + 4 * fac * g))
        impl = lambda: k.eq(z(l) + 4 * fac * g * k.Sum((d,), lambda m: c.A(l, m) * z(m)), rhs - 2 * fac * g * c.b(l))
        return k.ite(huge, lambda: k.eq(z(l), rhs), impl) if not k.sym else k.and_(k.implies(huge, k.eq(z(l), rhs)), k.or_(huge, impl()))
    S.upd('system', f)
    S.frame('others', dyn.x, X)

class Keep:
    """loop contract of the independent noise loop, for an arbitrary run: a run that may not be perturbed keeps its positions"""
    def __init__(self, k, S, i, keep): self.k, self.S, self.i, self.keep = k, S, i, keep
    def same(self, x): return lambda j, *l: not self.keep or (self.k.eq(self.k.at(x, self.i, j, *l), self.k.at(self.S.x, self.i, j, *l)))
    def enter(self, loc, vals):
        k, S = self.k, self.S
        k.forall('loop invariant on entry', (S.N,) + S.dd, self.same(S.dyn.x))
        S.dyn.x = k.array('x_loop', (S.M, S.N) + S.dd)
        k.assume_forall((S.N,) + S.dd, self.same(S.dyn.x))
        if hasattr(self, 'ghost'): self.ghost(S.dyn.x)
        return {}
    def back(self, loc): self.k.forall('loop invariant preserved', (self.S.N,) + self.S.dd, self.same(self.S.dyn.x))

@contract('C20', grid(act=['partial', 'full'], before=['same', 'other'], run=['left', 'moved']), timeout=120)
def independent_noise(k, act, before, run):
    """runs spread widely around their last consensus are left alone, the other active ones are perturbed until they are"""
    eps = k.real('eps_indep', pos=True, lo=1e-4, hi=.5)
    S = Ens(k, 'DriftConstrainedCBO', act, None, noise='isotropic', constraints=[dict(name='sphere')], sigma_indep=k.real('sigma_indep', pos=True, lo=.5, hi=2.), eps_indep=eps)
    dyn = S.dyn; d, = S.dd
    if not k.sym:
        dyn.dt = .1
        x = k.snap(dyn.x)
        for i in range(int(S.M)):
            if k.choice([0, 1]): x[i] = x[i].mean(0) + 1e-2 * (x[i] - x[i].mean(0))
        dyn.x = x.copy(); S.x = x
    if before == 'other': S.box[0] = k.mask('act_before', S.M, 'some')
    else: S.box[0] = S.act
    PA = k.active(S.box[0]); dyn.terminate(); dyn.consensus_runs_idx = dyn.active_runs_idx
    c = dyn.consensus = k.array('consensus', (PA.K, 1) + S.dd) if k.sym else x[dyn.active_runs_idx].mean(1, keepdims=True) + k.choice([0., 0., 1.])
    S.box[0] = S.act; dyn.terminate()
    def spread(X, p):
        i = PA.run(p)
        return k.div(k.Sum((S.N,), lambda j: k.Sum((d,), lambda l: (k.at(X, i, j, l) - k.at(c, p, 0, l)) * (k.at(X, i, j, l) - k.at(c, p, 0, l)))), S.N * d)
    fine = lambda X, p: k.le(eps, spread(X, p)) if k.sym else spread(X, p) >= eps * (1 - 1e-9)
    if not k.sym:
        dyn.indep_noise_step()
        had = [int(PA.run(p)) for p in range(int(PA.K))]
        for p, i in enumerate(had):
            if bool(S.act[i]): k.check('spread reaches the threshold', fine(dyn.x, p))
        for i in range(int(S.M)):
            keep = not S.act[i] or i not in had or spread(x, had.index(i)) >= eps * (1 + 1e-9)
            if keep: k.check('untouched', (dyn.x[i] == x[i]).all())
            elif spread(x, had.index(i)) < eps * (1 - 1e-9): k.check('every particle is perturbed', (dyn.x[i] != x[i]).all())
        return
    p = k.index(PA.K); i = PA.run(p)
    keep = k.or_(k.not_(S.A.has(i)), k.le(eps, spread(S.x, p)))
    left = run == 'left'
    L = Keep(k, S, i, left)
    if left: k.assume(keep)
    D2 = lambda X: lambda j, l: (k.at(X, i, j, l) - k.at(c, p, 0, l)) * (k.at(X, i, j, l) - k.at(c, p, 0, l))
    def ghost(x):
        if left: k.lemma_sum_eq('same spread', (S.N, d), D2(x), D2(S.x))
    L.ghost = ghost
    k.loop('indep_noise_step', L)
    dyn.indep_noise_step()
    if left: return k.forall('untouched', (S.N,) + S.dd, L.same(dyn.x))
    r = k.mod('numpy').intersect1d(dyn.active_runs_idx, dyn.consensus_runs_idx)
    pos = k.place(r, i)
    k.lemma('run was considered', k.implies(S.A.has(i), lambda: k.and_(k.le(0, pos), k.lt(pos, k.shape(r)[0]), k.ieq(k.at(r, pos), i))))
    k.check('spread reaches the threshold', k.implies(S.A.has(i), fine(dyn.x, p)))

@contract('C20', modes='con')
def independent_noise_law(k):
    """one round of the independent noise adds centred normal samples of variance sigma^2 dt"""
    import numpy as np
    sig = k.choice([.5, 2.])
    S = Ens(k, 'DriftConstrainedCBO', k.choice(['full', 'partial']), None, noise='isotropic', constraints=[dict(name='sphere')], sigma_indep=sig, eps_indep=1e-7, M=3, N=300, dd=(5,))
    dyn = S.dyn; dyn.dt = k.choice([.01, .1, 4.])
    dyn.x = np.zeros_like(dyn.x) + k.real('x'); x = k.snap(dyn.x)
    S.box[0] = S.act; dyn.terminate(); dyn.consensus_runs_idx = dyn.active_runs_idx
    dyn.consensus = x[dyn.active_runs_idx][:, :1]
    dyn.indep_noise_step()
    for i in range(3):
        z = (dyn.x[i] - x[i]) / (sig * dyn.dt ** .5)
        if not S.act[i]: k.check('inactive', (z == 0).all()); continue
        k.check('variance', .8 < z.var() < 1.2); k.check('centred', abs(z.mean()) < .16)
        k.check('independent particles', np.unique(z).size == z.size)
