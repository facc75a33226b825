from api import contract, grid
from common import *

CFG = [dict(act=a, batch=b, noise=n, multi=m) for a, b, n, m in [
    ('full', None, 'anisotropic', False), ('partial', None, 'anisotropic', False), ('partial', 'part', 'anisotropic', False), ('full', 'part', 'isotropic', False),
    ('partial', 'full', 'anisotropic', False), ('partial', 'concat', 'constant', False), ('partial', None, 'isotropic', False), ('full', None, 'isotropic', True),
    ('partial', 'part', 'constant', True), ('partial', 'part', 'isotropic', False)]]

def moments(k, S, b1, b2, m0, v0, dr):
    def m1(i, j, *l): return b1 * k.at(m0, i, j, *l) + (1 - b1) * dr(i, j, *l)
    def v1(i, j, *l): return b2 * k.at(v0, i, j, *l) + (1 - b2) * dr(i, j, *l)**2
    return m1, v1

def slack(S, c1, m, v, eps):
    """rounding: what an error e of the drift makes of the step lamda m/(c1 (sqrt(v) + eps))"""
    import numpy as np
    s = np.sqrt(v) + eps
    return 1e-11 * abs(S.lam) * (1 + np.abs(S.x).max()) * (1 + abs(m) / s) / (c1 * s)

@contract('C26', CFG)
def adam_step(k, act, batch, noise, multi):
    """one step at an arbitrary step number from arbitrary moments"""
    b1, b2, eps = (k.real(n, pos=True) if k.sym else k.choice([.1, .5, .9, .99]) for n in ('beta1', 'beta2', 'eps'))
    k.assume(k.and_(k.lt(b1, 1), k.lt(b2, 1)))
    if not k.sym: eps = k.choice([1e-8, 1e-3, .5])
    S = Ens(k, 'AdamCBO', act, batch, multi, noise, betas=(b1, b2), eps=eps)
    dyn = S.dyn
    m0 = k.array('m', (S.M, S.N) + S.dd); v0 = k.array('v', (S.M, S.N) + S.dd, nonneg=True)
    dyn.m, dyn.v = k.snap(m0), k.snap(v0)
    it = k.int('it', 0, 12) if k.sym else k.choice([k.int('it', 0, 12), k.int('it', 13, 2000)]); dyn.it = it; t0 = dyn.t = k.real('t')
    S.step()
    dr = lambda i, j, *l: S.drift(i, j, l)
    m1, v1 = moments(k, S, b1, b2, m0, v0, dr)
    c1, c2 = 1 - k.pow(b1, it + 1), 1 - k.pow(b2, it + 1)
    S.upd('first moment', lambda p, q, i, j, l: k.eq(k.at(dyn.m, i, j, *l), m1(i, j, *l)))
    S.upd('second moment', lambda p, q, i, j, l: k.eq(k.at(dyn.v, i, j, *l), v1(i, j, *l)))
    S.upd('position', lambda p, q, i, j, l: k.near(k.at(dyn.x, i, j, *l), k.at(S.x, i, j, *l)
          - S.lam * k.div(k.div(m1(i, j, *l), c1), k.sqrt(k.div(v1(i, j, *l), c2)) + eps)
          + S.sig * S.noise(noise, p, q, l, lambda a: dr(i, j, *a) if isinstance(a, tuple) else dr(i, j, a)),
          lambda: slack(S, c1, m1(i, j, *l), v1(i, j, *l) / c2, eps)))
    for n, new, old in (('x', dyn.x, S.x), ('first moment', dyn.m, m0), ('second moment', dyn.v, v0)): S.frame('other particles: ' + n, new, old)
    k.check('step number', k.eq(dyn.it, it + 1)); k.check('time', k.eq(dyn.t, t0 + S.dt))

@contract('C26', grid(multi=[False, True], rank=[1, 2, 3]))
def initial_moments(k, multi, rank):
    """moments start from zero with the shape of the ensemble; default parameters"""
    if multi: rank = 3
    M, N = k.dim('M', hi=3), k.dim('N', hi=4); dd = ddims(k, multi)
    b = {1: (), 2: (N,), 3: (M, N)}[rank]; full = {1: (1, 1), 2: (1, N), 3: (M, N)}[rank] + dd
    dyn = k.mod('cbx.dynamics').AdamCBO(k.objective(len(dd)), f_dim='3D', x=k.array('x0', b + dd), verbosity=0, check_f_dims=False)
    for n in 'mv':
        k.check_shape('shape of ' + n, getattr(dyn, n), full)
        k.forall(n + ' is zero', full, lambda *i: k.eq(k.at(getattr(dyn, n), *i), 0))
    k.check('betas', k.and_(k.eq(dyn.betas[0], .9), k.eq(dyn.betas[1], .99)))
    k.check('eps', k.eq(dyn.eps, 1e-8))
    m = k.snap(dyn.m)
    dyn.v[...] = dyn.v + 1.
    k.forall('separate moments', full, lambda *i: k.eq(k.at(dyn.m, *i), 0))
    k.forall('positions are not moments', full, lambda *i: k.eq(k.at(dyn.m, *i), k.at(m, *i)))

@contract('C26', [dict(batch=b, noise=n) for b in (None, 'part') for n in ('anisotropic', 'isotropic')], modes='con')
def recursion(k, batch, noise):
    """whole histories from the start: moments are the discounted sums, the number of the step is counted from one"""
    import numpy as np
    b1, b2 = k.choice([(.9, .99), (.5, .8), (.1, .95)])
    S = Ens(k, 'AdamCBO', 'full', batch, False, noise, betas=(b1, b2), warm=0)
    dyn = S.dyn
    m = np.zeros_like(dyn.x); v = np.zeros_like(dyn.x)
    for st in range(1, 6):
        S.x = k.snap(dyn.x); S.s0 = len(S.smp.samples)
        if st == 3: S.box[0] = k.mask('later', S.M, 'partial'); 
        S.act = S.box[0]; S.A = k.active(S.act); S.K = S.A.K
        S.step()
        for p in range(int(S.K)):
            i = S.A.run(p)
            for q in range(int(S.nu)):
                j = S.U(i, q)
                dr = np.array([S.drift(i, j, (l,)) for l in range(int(S.dd[0]))])
                m[i, j] = b1 * m[i, j] + (1 - b1) * dr; v[i, j] = b2 * v[i, j] + (1 - b2) * dr**2
                for l in range(len(dr)):
                    k.check('position', k.near(dyn.x[i, j, l], S.x[i, j, l] - S.lam * (m[i, j, l] / (1 - b1**st)) / (np.sqrt(v[i, j, l] / (1 - b2**st)) + 1e-8)
                            + S.sig * S.noise(noise, p, q, (l,), lambda a: dr[a[0] if isinstance(a, tuple) else a]),
                            lambda: slack(S, 1 - b1**st, m[i, j, l], v[i, j, l] / (1 - b2**st), 1e-8)))
        k.check('moments', np.allclose(dyn.m, m) and np.allclose(dyn.v, v))
