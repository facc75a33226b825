from api import contract, grid
from common import *

def near(k, a, b, s=1.): return k.eq(a, b) if k.sym else abs(a - b) <= 1e-7 * (1 + s)

@contract('C29', grid(batch=['matrix', 'runs', 'particles']))
def square_root(k, batch):
    """the square root R of any positive semidefinite matrix A (a sum of weighted outer products): symmetric, positive semidefinite, R R = A"""
    P = k.mod('cbx.dynamics.pdyn')
    n, r = k.dim('d', hi=4), k.dim('r', hi=5)
    M, N = k.dim('M', hi=3), k.dim('N', hi=3)
    b = dict(matrix=(), runs=(M,), particles=(M, N))[batch]
    G = k.array('G', b + (r, n)); w = k.array('w', b + (r,), nonneg=True)
    bi = [k.index(e) for e in b] if k.sym else [int(k.rng.integers(e)) for e in b]
    gram = lambda i: lambda a, c: k.Sum((r,), lambda q: k.at(w, *i, q) * k.at(G, *i, q, a) * k.at(G, *i, q, c))
    A = k.build(b + (n, n), lambda *v: gram(v[:-2])(v[-2], v[-1]))
    A0 = k.snap(A)
    R = P.compute_mat_sqrt(A)
    k.check_shape('shape', R, b + (n, n))
    k.forall('argument unchanged', b + (n, n), lambda *v: k.eq(k.at(A, *v), k.at(A0, *v)))
    f = gram(tuple(bi))
    lam, V = k.eig(n, f)
    def ghost(p):
        k.eig_axiom(n, f, p)
        k.lemma_sum('quadratic form', (r,), lambda q: k.at(w, *bi, q) * k.Sum((n,), lambda a: V(a, p) * k.at(G, *bi, q, a)) * k.Sum((n,), lambda a: V(a, p) * k.at(G, *bi, q, a)))
    nonneg = k.lemma_forall('eigenvalues are nonnegative', (n,), lambda p: k.le(0, lam(p)), ghost)
    i, j = k.index(n), k.index(n)
    k.lemma_sum_eq('eigenvalues are kept', (n,), lambda p: (nonneg(p), V(i, p) * k.max(lam(p), 0) * V(j, p))[1], lambda p: V(i, p) * lam(p) * V(j, p))
    sc = 1. if k.sym else float(abs(k.at(A0, *bi, i, i)) + abs(k.at(A0, *bi, j, j)))
    k.check('symmetric', near(k, k.at(R, *bi, i, j), k.at(R, *bi, j, i), sc))
    k.check('square', near(k, k.Sum((n,), lambda a: k.at(R, *bi, i, a) * k.at(R, *bi, a, j)), f(i, j), sc))
    z = k.array('z', (n,))
    k.lemma_sum('nonnegative terms', (n,), lambda p: k.sqrt(k.max(lam(p), 0)) * k.Sum((n,), lambda a: V(a, p) * k.at(z, a)) * k.Sum((n,), lambda a: V(a, p) * k.at(z, a)))
    k.check('positive semidefinite', k.le(0 if k.sym else -1e-7, k.Sum((n, n), lambda a, c: k.at(z, a) * k.at(R, *bi, a, c) * k.at(z, c))))

@contract('C29', grid(batch=['matrix', 'runs', 'particles']))
def negative_eigenvalues(k, batch):
    """any symmetric matrix: the square root of its positive part"""
    P = k.mod('cbx.dynamics.pdyn')
    n, M, N = k.dim('d', hi=4), k.dim('M', hi=3), k.dim('N', hi=3)
    b = dict(matrix=(), runs=(M,), particles=(M, N))[batch]
    G = k.array('G', b + (n, n))
    s = lambda i: lambda a, c: k.at(G, *i, a, c) + k.at(G, *i, c, a)
    R = P.compute_mat_sqrt(k.build(b + (n, n), lambda *v: s(v[:-2])(v[-2], v[-1])))
    if k.sym:
        k.forall('root of the positive part', b + (n, n), lambda *v: k.eq(k.at(R, *v), k.msqrt(n, s(v[:-2]))(v[-2], v[-1])))
        bi = [k.index(e) for e in b]
    else: bi = [int(k.rng.integers(e)) for e in b]
    lam, V = k.eig(n, s(tuple(bi)))
    i, j = k.index(n), k.index(n)
    k.check('symmetric', near(k, k.at(R, *bi, i, j), k.at(R, *bi, j, i)))
    k.check('square is the positive part', near(k, k.Sum((n,), lambda a: k.at(R, *bi, i, a) * k.at(R, *bi, a, j)), k.Sum((n,), lambda p: V(i, p) * k.max(lam(p), 0) * V(j, p)), 10.))
    z = k.array('z', (n,))
    k.lemma_sum('nonnegative terms', (n,), lambda p: k.sqrt(k.max(lam(p), 0)) * k.Sum((n,), lambda a: V(a, p) * k.at(z, a)) * k.Sum((n,), lambda a: V(a, p) * k.at(z, a)))
    k.check('positive semidefinite', k.le(0 if k.sym else -1e-7, k.Sum((n, n), lambda a, c: k.at(z, a) * k.at(R, *bi, a, c) * k.at(z, c))))

def gibbs(k, lw, n):
    """normalised weights exp(lw) over n"""
    sh = 0 if k.sym else max(float(lw(q)) for q in range(int(n)))
    w = lambda q: k.exp(lw(q) - sh)
    W = k.Sum((n,), w)
    return lambda q: k.div(w(q), W)

def same_root(k, name, R, shape, cov, d):
    """R[i] is the square root of the matrix cov(i) of size d"""
    k.check_shape('shape of ' + name, R, shape + (d, d))
    if k.sym: k.forall(name, shape + (d, d), lambda *v: k.eq(k.at(R, *v), k.msqrt(d, cov(*v[:-2]))(v[-2], v[-1])))
    else:
        import numpy as np
        for i in np.ndindex(*[int(s) for s in shape]):
            C = k.matrix(d, d, cov(*i)); r = np.asarray(R[i])
            k.check(name, np.allclose(r @ r, C, atol=1e-7) and np.allclose(r, r.T, atol=1e-9) and np.linalg.eigvalsh((r + r.T) / 2).min() >= -1e-7)

@contract('C29', [dict(cls=c, act=a, batch=b) for c, a, b in [('CBO', 'full', None), ('CBO', 'partial', None), ('CBO', 'partial', 'part'), ('CBO', 'full', 'part'), ('CBO', 'partial', 'full'), ('CBO', 'partial', 'concat'),
                                                                 ('CBS', 'full', None), ('CBS', 'partial', None), ('MirrorCBO', 'partial', 'part'), ('AdamCBO', 'partial', 'part')]])
def covariance(k, cls, act, batch):
    """arbitrary drifts and energies: the root of the weighted covariance of the batch of the own run"""
    S = Ens(k, cls, act, batch, noise='covariance', havoc_energy=True)
    dyn = S.dyn
    S.act_now(); dyn.pre_step()
    n = S.nu
    dyn.drift = k.array('drift', (S.K, n) + S.dd); dr = k.snap(dyn.drift)
    dyn.update_covariance(); S.nodup()
    d, = S.dd
    pos = (lambda i, q: q) if batch != 'full' else (lambda i, q: S.B(i, q))       # position of the q-th batch particle among the updated ones
    def cov(p):
        i = S.A.run(p)
        g = gibbs(k, lambda q: -S.al(i) * k.at(S.energy, i, S.B(i, q)), S.nc)
        return lambda a, c: k.Sum((S.nc,), lambda q: g(q) * k.at(dr, p, pos(i, q), a) * k.at(dr, p, pos(i, q), c))
    same_root(k, 'root of the covariance', dyn.Cov_sqrt, (S.K,), cov, d)
    k.forall('drift unchanged', (S.K, n) + S.dd, lambda *v: k.eq(k.at(dyn.drift, *v), k.at(dr, *v)))
    k.forall('energy unchanged', (S.M, S.N), lambda i, j: k.eq(k.at(dyn.energy, i, j), k.at(S.energy, i, j)))

@contract('C29', [dict(cls='CBO', act=a, batch=b) for a, b in [('full', None), ('partial', None)]] + [dict(cls='CBS', act='partial', batch=None)])
def covariance_in_step(k, cls, act, batch):
    """the weights of the covariance in a step are the weights of the consensus of the same step"""
    S = Ens(k, cls, act, batch, noise='covariance')
    S.step(modular=True)
    dyn = S.dyn
    d, = S.dd
    def cov(p):
        i = S.A.run(p)
        g = gibbs(k, lambda q: -S.al(i) * S.F(i, S.B(i, q)), S.nc)
        dr = lambda q, l: k.at(S.x, i, S.B(i, q), l) - S.c(i, (l,))
        return lambda a, c: k.Sum((S.nc,), lambda q: g(q) * dr(q, a) * dr(q, c))
    same_root(k, 'root of the covariance', dyn.Cov_sqrt, (S.K,), cov, d)

@contract('C29', [dict(cls=c, act=a, batch=b) for c in ('CBO', 'PolarCBO') for a, b in [('partial', 'part'), ('partial', 'full'), ('full', 'part')]])
def state_for_covariance(k, cls, act, batch):
    """in a step, the covariance (see covariance and polar_covariance) is computed from the energies and the drifts of the same step"""
    S = Ens(k, cls, act, batch, noise='covariance')
    dyn = S.dyn
    seen = []
    upd = dyn.update_covariance
    def record():
        seen.append((k.snap(dyn.energy), k.snap(dyn.drift), k.snap(dyn.alpha), k.snap(dyn.neg_log_eval) if cls == 'PolarCBO' else None, k.snap(dyn.consensus)))
        if not k.sym: upd()
        else: dyn.Cov_sqrt = k.array('root', ((S.K, S.nu) if cls == 'PolarCBO' else (S.K,)) + S.dd + S.dd)
    dyn.update_covariance = record
    S.step(modular=True)
    if not seen: k.unsupported('covariance not updated through update_covariance')
    e, dr, al, nl, c = seen[-1]
    k.check('updated once', len(seen) == 1)
    k.forall('energies of the batch', (S.K, S.nc), lambda p, q: k.eq(k.at(e, S.A.run(p), S.B(S.A.run(p), q)), S.F(S.A.run(p), S.B(S.A.run(p), q))))
    k.forall('parameters', (S.M,), lambda i: k.eq(k.at(al, i, 0), S.al(i)))
    if cls == 'CBO': S.upd('drifts', lambda p, q, i, j, l: k.eq(k.at(dr, p, q, *l), S.drift(i, j, l)))
    else:
        S.upd('drifts', lambda p, q, i, j, l: k.eq(k.at(dr, p, q, *l), k.at(S.x, i, j, *l) - k.at(c, p, q, *l)))
        def kern(p, u, q):
            i = S.A.run(p); j, r = S.U(i, u), S.B(i, q)
            return k.eq(k.at(nl, p, u, q), k.Sum(S.dd, lambda *l: (k.at(S.x, i, j, *l) - k.at(S.x, i, r, *l))**2) / 2)
        k.forall('kernel weights', (S.K, S.nu, S.nc), kern)

@contract('C29', [dict(mode=m, act=a, batch=b) for m, a, b in [('alpha', 'full', None), ('const', 'partial', None), ('alpha', 'partial', 'part'), ('const', 'full', 'part'), ('alpha', 'partial', 'full')]])
def polar_covariance(k, mode, act, batch):
    """the polarized dynamic: one covariance per updated particle, with the kernel weights"""
    S = Ens(k, 'PolarCBO', act, batch, noise='covariance', havoc_energy=True, warm=0, kernel_factor_mode=mode)
    dyn = S.dyn
    S.act_now(); dyn.pre_step()
    n = S.nu
    dyn.drift = k.array('drift', (S.K, n) + S.dd); dr = k.snap(dyn.drift)
    dyn.neg_log_eval = k.array('neglog', (S.K, n, S.nc)); nl = k.snap(dyn.neg_log_eval)
    dyn.update_covariance(); S.nodup()
    d, = S.dd
    pos = (lambda i, q: q) if batch != 'full' else (lambda i, q: S.B(i, q))
    def cov(p, u):
        i = S.A.run(p)
        s = S.al(i) if mode == 'alpha' else 1
        g = gibbs(k, lambda q: -s * k.at(nl, p, u, q) - S.al(i) * k.at(S.energy, i, S.B(i, q)), S.nc)
        return lambda a, c: k.Sum((S.nc,), lambda q: g(q) * k.at(dr, p, pos(i, q), a) * k.at(dr, p, pos(i, q), c))
    same_root(k, 'root of the covariance', dyn.Cov_sqrt, (S.K, n), cov, d)

@contract('C29', [dict(cls=c, mode=m, act=a, batch=b) for c, a, b in [('CBO', 'full', None), ('CBO', 'partial', 'part'), ('CBS', 'partial', None), ('PolarCBO', 'partial', None), ('PolarCBO', 'partial', 'part')] for m in (('sampling', 'optimization') if c == 'CBS' else ('default',))])
def action(k, cls, mode, act, batch):
    """the noise is the stored root applied to the sample of the particle, scaled per run"""
    kw = {} if mode == 'default' else dict(mode=mode)
    S = Ens(k, cls, act, batch, noise='covariance', havoc_energy=True, warm=0, **kw)
    dyn = S.dyn
    S.act_now(); dyn.pre_step()
    n = S.nu; d, = S.dd
    dyn.drift = k.array('drift', (S.K, n) + S.dd)
    C = k.array('root', (S.K, n, d, d) if cls == 'PolarCBO' else (S.K, d, d)); dyn.Cov_sqrt = k.snap(C)
    dyn.update_covariance = lambda: None
    s0 = len(S.smp.samples)
    z = dyn.noise(); S.nodup()
    k.check('one sample', len(S.smp.samples) == s0 + 1)
    k.check_shape('shape', z, (S.K, n) + S.dd)
    gam = lambda i: 1 if mode == 'optimization' else 1 / (1 + S.al(i))
    def spec(p, q, l):
        R = (lambda a, m: k.at(C, p, q, a, m)) if cls == 'PolarCBO' else (lambda a, m: k.at(C, p, a, m))
        return k.sqrt(2 * S.dt / gam(S.A.run(p))) * k.Sum((d,), lambda m: R(l, m) * k.at(S.smp.samples[s0], p, q, m))
    k.forall('noise', (S.K, n) + S.dd, lambda p, q, l: k.eq(k.at(z, p, q, l), spec(p, q, l)))

@contract('C29', grid(mode=['sampling', 'optimization'], act=['full', 'partial'], sigma=['default', 'given']))
def sampling_step(k, mode, act, sigma):
    """consensus-based sampling adds the noise of its noise model unscaled"""
    M, N, d = k.dim('M', hi=4), k.dim('N', hi=4), k.dim('d', hi=3)
    Z = k.array('Z', (M, N, d))
    class Own:
        def __call__(self, dyn): return Z[dyn.active_runs_idx]
    f = k.objective(1); lam, dt = k.real('lamda'), k.real('dt', pos=True)
    box = Box([k.mask('act', M, act)])
    kw = dict(sigma=k.real('sigma', pos=True)) if sigma == 'given' else {}
    with_warnings = __import__('warnings')
    with with_warnings.catch_warnings():
        with_warnings.simplefilter('ignore')
        dyn = k.mod('cbx.dynamics').CBS(f, f_dim='3D', x=k.array('x0', (M, N, d)), noise=Own(), mode=mode, lamda=lam, dt=dt, verbosity=0, check_f_dims=False,
                                        post_process=lambda q: None, term_criteria=[make_term(box)], **kw)
    k.check('mode', dyn.noise_callable.mode == mode)
    dyn.x = k.array('x', (M, N, d)); x = k.snap(dyn.x)
    al = k.array('alpha', (M, 1), pos=True); dyn.alpha = k.snap(al)
    A = k.active(box[0])
    dyn.terminate(); dyn.step()
    def c(i, l):
        sh = 0 if k.sym else min(f.at(x, i, j) for j in range(int(N)))
        w = lambda j: k.exp(-k.at(al, i, 0) * (f.at(x, i, j) - sh))
        return k.div(k.Sum((N,), lambda j: w(j) * k.at(x, i, j, l)), k.Sum((N,), w))
    k.forall('step', (M, N, d), lambda i, j, l: k.eq(k.at(dyn.x, i, j, l), k.ite(A.has(i), k.at(x, i, j, l) - lam * dt * (k.at(x, i, j, l) - c(i, l)) + k.at(Z, i, j, l), k.at(x, i, j, l))))
