from api import contract, grid
from common import *
from c06 import build

def _cfg():
    out = []
    for cls in ('CBOMemory', 'PSO'):
        for act, b, n, c in [('full', None, 'anisotropic', 'no_correction'), ('partial', None, 'isotropic', 'no_correction'), ('partial', 'part', 'anisotropic', 'no_correction'),
                             ('full', 'full', 'anisotropic', 'no_correction'), ('partial', 'full', 'constant', 'no_correction'), ('partial', 'part', 'constant', 'heavi_side_reg'), ('partial', None, 'constant', 'heavi_side')]:
            out.append(dict(cls=cls, act=act, batch=b, noise=n, corr=c, own=False))
        out.append(dict(cls=cls, act='partial', batch=None, noise='anisotropic', corr='no_correction', own=True))
    return out

def params(k, cls, own):
    """own: memory parameters given by the user, otherwise the defaults"""
    kw = {}
    if cls == 'PSO': kw['m'] = k.real('m', pos=True, lo=.1, hi=.9)
    if own:
        kw['lamda_memory'] = k.real('lamda_memory'); kw['sigma_memory'] = k.real('sigma_memory')
        if cls == 'PSO': kw['gamma'] = k.real('gamma', pos=True, lo=.1, hi=2.)
    return kw

def setup(k, cls, act, batch, noise, corr='no_correction', own=False, multi=False):
    kw = params(k, cls, own)
    S = build(k, cls, batch, noise, act=act, corr=corr, multi=multi, **kw)
    S.y = S.aux['y']
    S.lm = kw.get('lamda_memory', .4); S.sm = kw.get('sigma_memory', S.lm * S.sig)
    S.m = kw.get('m'); S.gam = kw.get('gamma', None if cls != 'PSO' else 1 - kw['m'])
    S.E = lambda i, j: k.at(S.energy, i, j)
    S.cm = lambda i, l: S.gmean(i, l, E=S.E, X=S.y)
    return S

@contract('C15', _cfg())
def memory_positions(k, cls, act, batch, noise, corr, own):
    """the step follows the documented update with attraction to consensus and memory; two fresh samples are used"""
    S = setup(k, cls, act, batch, noise, corr, own)
    dyn = S.dyn
    S.step(modular=True)
    k.check('two samples', len(S.smp.samples) == S.s0 + 2)
    for s in S.smp.samples[S.s0:]: k.check_shape('sample shape', s, (S.K, S.nu) + S.dd)
    X = lambda i, j, l: k.at(S.x, i, j, *l); Y = lambda i, j, l: k.at(S.y, i, j, *l)
    def upd(p, q, i, j, l):
        cf = S.corrfac(corr, S.E(i, j), S.f.atfn(S.dd, lambda *m: S.cm(i, m))) if corr != 'no_correction' else 1
        d0 = lambda m: X(i, j, m) - S.cm(i, m)
        if cls == 'CBOMemory':
            x1 = lambda m: X(i, j, m) - S.lam * S.dt * cf * d0(m) + S.sig * S.noise(noise, p, q, m, lambda o: cf * d0(o))
            d1 = lambda m: x1(m) - Y(i, j, m)
            new = x1(l) - S.lm * S.dt * d1(l) + S.sm * S.noise(noise, p, q, l, d1, s=1)
            return k.eq(k.at(dyn.x, i, j, *l), new)
        dm = lambda m: X(i, j, m) - Y(i, j, m)
        v = k.div(S.m * k.at(S.aux['v'], i, j, *l) - cf * S.lam * S.dt * d0(l) - S.lm * S.dt * dm(l) + S.sig * S.noise(noise, p, q, l, d0) + S.sm * S.noise(noise, p, q, l, dm, s=1), S.m + S.gam * S.dt)
        return [('velocity', k.eq(k.at(dyn.v, i, j, *l), v)), ('position', k.eq(k.at(dyn.x, i, j, *l), X(i, j, l) + S.dt * k.at(dyn.v, i, j, *l)))]
    S.upd('update', upd)
    S.frame('other particles', dyn.x, S.x)
    if cls == 'PSO': S.frame('other velocities', dyn.v, S.aux['v'])

MEM = [dict(cls=c, act=a, batch=b, multi=m) for c in ('CBOMemory', 'PSO') for a, b, m in [('full', None, False), ('partial', None, True), ('partial', 'part', False), ('full', 'part', True), ('partial', 'full', False), ('partial', 'concat', False)]]

@contract('C15', MEM)
def memory_update(k, cls, act, batch, multi):
    """stored energy = minimum of the old one and the one of the new position; the memory moves exactly with a strict improvement"""
    S = setup(k, cls, act, batch, 'anisotropic' if not multi else 'constant', multi=multi)
    dyn = S.dyn
    if k.sym: dyn.best_energy = k.array('best_energy', (S.M,)); be = k.snap(dyn.best_energy); dyn.best_particle = k.array('best_particle', (S.M,) + S.dd); bp = k.snap(dyn.best_particle)
    S.step(modular=True)
    new = lambda i, j: S.f.at(dyn.x, i, j)
    def pair(p, q):
        i = S.A.run(p); j = S.U(i, q)
        return [('energy', k.eq(k.at(dyn.energy, i, j), k.min(S.E(i, j), new(i, j))))]
    k.forall('stored', (S.K, S.nu), pair)
    def mem(p, q, i, j, l):
        return k.eq(k.at(dyn.y, i, j, *l), k.ite(k.lt(new(i, j), S.E(i, j)), lambda: k.at(dyn.x, i, j, *l), lambda: k.at(S.y, i, j, *l)))
    S.upd('memory position', mem)
    S.frame('other memory positions', dyn.y, S.y)
    k.forall('other energies', (S.M, S.N), lambda i, j: k.implies(k.not_(S.updated(i, j)), k.eq(k.at(dyn.energy, i, j), S.E(i, j))))
    k.forall('evaluations', (S.M,), lambda i: k.eq(k.at(dyn.num_f_eval, i), k.at(S.nf, i) + k.ite(S.A.has(i), S.nu, 0)))
    if k.sym:
        k.forall('best energy untouched by the inner step', (S.M,), lambda i: k.eq(k.at(dyn.best_energy, i), k.at(be, i)))
        k.forall('best particle untouched by the inner step', (S.M,) + S.dd, lambda i, *l: k.eq(k.at(dyn.best_particle, i, *l), k.at(bp, i, *l)))

@contract('C15', MEM)
def pairing(k, cls, act, batch, multi):
    """inductive invariant: the objective value at every memory position equals the stored energy (used by C07)"""
    S = setup(k, cls, act, batch, 'anisotropic' if not multi else 'constant', multi=multi)
    dyn = S.dyn
    if k.sym: k.assume_forall((S.M, S.N), lambda i, j: k.eq(S.f.at(S.y, i, j), S.E(i, j)))
    else:
        dyn.energy = S.f(dyn.y); S.energy = k.snap(dyn.energy)
    S.step(modular=True)
    k.forall('value at the memory', (S.M, S.N), lambda i, j: k.eq(S.f.at(dyn.y, i, j), k.at(dyn.energy, i, j)))
    k.forall('bounded by the new position', (S.M, S.N), lambda i, j: k.implies(S.updated(i, j), k.le(k.at(dyn.energy, i, j), S.f.at(dyn.x, i, j))))
    k.forall('never increases', (S.M, S.N), lambda i, j: k.le(k.at(dyn.energy, i, j), S.E(i, j)))

@contract('C15', [dict(cls=c, act=a, batch=b, multi=m) for c in ('CBOMemory', 'PSO') for a, b, m in [('full', None, False), ('partial', None, True), ('partial', 'part', False), ('partial', 'full', False)]])
def memory_consensus(k, cls, act, batch, multi):
    """the consensus is the Gibbs mean of the batch's memory positions with the stored energies"""
    S = setup(k, cls, act, batch, 'constant', multi=multi)
    dyn = S.dyn
    S.step(modular=True)
    k.check_shape('shape', dyn.consensus, (S.K, 1) + S.dd)
    k.forall('consensus', (S.K,) + S.dd, lambda p, *l: k.eq(k.at(dyn.consensus, p, 0, *l), S.cm(S.A.run(p), l)))

@contract('C15', grid(cls=['CBOMemory', 'PSO'], multi=[False, True]))
def construction(k, cls, multi):
    """initially the memory is the ensemble itself with its energies, velocities are zero"""
    S = Ens(k, cls, 'full', multi=multi, warm=0)
    dyn = S.dyn
    sh = (S.M, S.N) + S.dd
    k.forall('memory', sh, lambda i, j, *l: k.eq(k.at(dyn.y, i, j, *l), k.at(S.x_init, i, j, *l)))
    k.forall('energy', (S.M, S.N), lambda i, j: k.eq(k.at(dyn.energy, i, j), S.f.at(S.x_init, i, j)))
    k.forall('evaluations', (S.M,), lambda i: k.eq(k.at(dyn.num_f_eval, i), S.N))
    if cls == 'PSO': k.forall('velocity', sh, lambda i, j, *l: k.eq(k.at(dyn.v, i, j, *l), 0))
    dyn2 = getattr(k.mod('cbx.dynamics'), cls)(S.f, f_dim='3D', x=S.x_init, verbosity=0, check_f_dims=False)
    dyn2.x[...] = 7.
    k.forall('own memory', sh, lambda i, j, *l: k.eq(k.at(dyn2.y, i, j, *l), k.at(S.x_init, i, j, *l)))

@contract('C15', grid(cls=['CBOMemory', 'PSO']), modes='con')
def memory_history(k, cls):
    """over whole histories every memory position is the best of the positions the particle visited"""
    import numpy as np
    S = Ens(k, cls, 'partial', k.choice([None, 'part', 'full', 'concat']), noise=k.choice(['isotropic', 'anisotropic', 'constant']), corr=k.choice(['no_correction', 'heavi_side']), warm=0)
    dyn = S.dyn
    best = dyn.energy.copy()
    best = np.asarray(best); f = S.f
    dyn.x = k.snap(S.x_init)
    for n in range(5):
        S.box[0] = k.mask('act%d' % n, S.M, 'some')
        dyn.terminate(); dyn.step(); S.nodup()
        now = np.array([[float(f.at(dyn.x, i, j)) for j in range(int(S.N))] for i in range(int(S.M))])
        y = np.array([[float(f.at(dyn.y, i, j)) for j in range(int(S.N))] for i in range(int(S.M))])
        best = np.minimum(best, np.where(np.abs(dyn.x - dyn.x_old).reshape(*dyn.x.shape[:2], -1).max(-1) > 0, now, best))
        k.check('best visited', np.allclose(dyn.energy, best) and np.allclose(y, best))
