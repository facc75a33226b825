from api import contract, grid
from common import *

@contract('C04', [dict(kind=n, act=a, batch=b, multi=m) for n in ('isotropic', 'anisotropic', 'constant') for a, b, m in [('full', None, True), ('partial', 'part', False), ('partial', None, True)]])
def elementwise_noise(k, kind, act, batch, multi):
    S = Ens(k, 'CBO', act, batch, multi, noise=kind)
    dyn = S.dyn
    S.act_now(); dyn.pre_step()
    dyn.drift = k.array('drift', (S.K, S.nu) + S.dd)
    dr = k.snap(dyn.drift)
    z = dyn.noise()
    k.check('sampler called once', len(S.smp.samples) == S.s0 + 1)
    k.check_shape('sample has the shape of the drift', S.smp.samples[-1], (S.K, S.nu) + S.dd)
    k.check_shape('shape', z, (S.K, S.nu) + S.dd)
    k.forall('noise', (S.K, S.nu) + S.dd, lambda p, q, *l: k.eq(k.at(z, p, q, *l), S.noise(kind, p, q, l, lambda m: k.at(dr, p, q, *m))))
    k.forall('drift unchanged', (S.K, S.nu) + S.dd, lambda p, q, *l: k.eq(k.at(dyn.drift, p, q, *l), k.at(dr, p, q, *l)))

@contract('C04', [dict(mode=m, act=a, batch=b, name=n) for m in ('sampling', 'optimization') for a, b, n in [('full', None, 'covariance'), ('partial', None, 'sampling'), ('partial', 'part', 'covariance')]])
def covariance_noise(k, mode, act, batch, name):
    S = Ens(k, 'CBO', act, batch, noise=name, havoc_energy=True)
    dyn = S.dyn
    k.check('default mode is sampling', dyn.noise_callable.mode == 'sampling')
    dyn.noise_callable.mode = mode
    S.act_now(); dyn.pre_step()
    dyn.drift = k.array('drift', (S.K, S.nu) + S.dd)
    dr = k.snap(dyn.drift)
    z = dyn.noise()
    k.check('sampler called once', len(S.smp.samples) == S.s0 + 1)
    k.check_shape('sample has the shape of the drift', S.smp.samples[-1], (S.K, S.nu) + S.dd)
    k.check_shape('shape', z, (S.K, S.nu) + S.dd)
    def spec(p, q, l):
        i = S.A.run(p)
        gam = 1 / (1 + S.al(i)) if mode == 'sampling' else 1
        return k.sqrt(2 * S.dt / gam) * k.Sum(S.dd, lambda m: k.at(dyn.Cov_sqrt, p, l, m) * S.xi(p, q, m))
    k.forall('noise', (S.K, S.nu) + S.dd, lambda p, q, l: k.eq(k.at(z, p, q, l), spec(p, q, l)))
@contract('C04', grid(act=['full', 'partial']), modes='con')
def covariance_noise_blackbox(k, act):
    """noise recomputed from drift, energies and sample alone"""
    S = Ens(k, 'CBO', act, None, noise='covariance', havoc_energy=True)
    dyn = S.dyn
    S.act_now(); dyn.pre_step()
    dyn.drift = k.array('drift', (S.K, S.nu) + S.dd)
    dr = k.snap(dyn.drift)
    z = dyn.noise()
    for p in range(S.K):
        i = S.A.run(p)
        E = [k.at(S.energy, i, j) for j in range(S.N)]
        w = [k.exp(-S.al(i) * (e - min(E))) for e in E]
        R = k.msqrt(S.dd[0], lambda a, b: sum(w[j] * dr[p, j, a] * dr[p, j, b] for j in range(S.N)) / sum(w))
        big = max(abs(dr[p, j, a]) for j in range(S.N) for a in range(S.dd[0]))        # sqrt of rounded zero eigenvalues: error sqrt(eps) * size of the drift
        for q in range(S.N):
            xin = sum(abs(S.xi(p, q, m)) for m in range(S.dd[0]))
            for l in range(S.dd[0]):
                v = k.sqrt(2 * S.dt * (1 + S.al(i))) * sum(R(l, m) * S.xi(p, q, m) for m in range(S.dd[0]))
                k.check('noise', abs(v - z[p, q, l]) <= 1e-6 * (1 + abs(v)) + 3e-7 * k.sqrt(2 * S.dt * (1 + S.al(i))) * S.dd[0] * big * xin)
@contract('C04', [{}])
def selection(k):
    """get_noise selects the model by name and passes norm and sampler on"""
    NS = k.mod('cbx.noise')
    class D: pass
    d = D(); d.norm = lambda *a, **kw: None; d.sampler = k.sampler()
    for n, c in (('isotropic', 'isotropic_noise'), ('anisotropic', 'anisotropic_noise'), ('covariance', 'covariance_noise'), ('sampling', 'covariance_noise'), ('constant', 'constant_noise')):
        m = NS.get_noise(n, d)
        k.check('%s selects %s' % (n, c), type(m) is getattr(NS, c))
        k.check('%s uses the sampler of the dynamic' % n, m.sampler is d.sampler)
        k.check('%s uses the norm of the dynamic' % n, m.norm is d.norm)
    k.raises('unknown noise', lambda: NS.get_noise('foo', d), NotImplementedError)

@contract('C04', grid(backend=['numpy', 'torch'], kind=['normal', 'exponential']), modes='con')
def sampler_distribution(k, backend, kind):
    """standard normal, and two-sided exponential with unit rate (statistical, six standard errors)"""
    np = k.mod('numpy'); n = 40000
    if backend == 'torch':
        T = k.mod('cbx.utils.torch_utils'); k.mod('torch').manual_seed(int(k.rng.integers(1 << 30)))
        v = k.snap((T.standard_normal_torch if kind == 'normal' else T.exponential_torch)('cpu')(size=(n,)))
    elif kind == 'exponential':
        np.random.seed(int(k.rng.integers(1 << 30))); v = np.asarray(k.mod('cbx.noise').exponential_sampler()(size=(n,)))
    else:
        dyn = k.mod('cbx.dynamics').CBO(k.objective(1), f_dim='3D', x=k.array('x0', (1, 2, 1)), verbosity=0, check_f_dims=False, seed=int(k.rng.integers(1 << 30)))
        v = np.asarray(dyn.sampler(size=(n,)))
    q = lambda p, x: k.check('distribution function at %s' % x, abs((v <= x).mean() - p) <= 6 * .5 / n ** .5)
    if kind == 'normal':
        for p, x in ((.5, 0.), (.841345, 1.), (.158655, -1.), (.977250, 2.), (.022750, -2.)): q(p, x)
    else:
        for x in (0., .5, 1., 2.): q(1 - np.exp(-x) / 2, x); q(np.exp(-x) / 2, -x)
    k.check('no two equal samples', len(set(v[:100].tolist())) >= (100 if backend == 'numpy' else 95))
