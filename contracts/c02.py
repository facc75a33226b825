from api import contract, grid
from common import *

KER = dict(Gaussian='Gaussian_kernel', Laplace='Laplace_kernel', InverseQuadratic='InverseQuadratic_kernel', Constant='Constant_kernel', Taz='Taz_kernel')
def kspec(k, name, kap, r2):
    """kernel value from the squared distance"""
    if name == 'Gaussian': return k.exp(-r2 / (2 * kap * kap))
    if name == 'Laplace': return k.exp(-k.sqrt(r2) / kap)
    if name == 'InverseQuadratic': return k.div(1, 1 + r2 / (kap * kap))
    raise ValueError(name)
def neglog(k, name, kap, r2):
    if name == 'Gaussian': return r2 / (2 * kap * kap)
    if name == 'Laplace': return k.sqrt(r2) / kap
    if name == 'InverseQuadratic': return k.log(1 + r2 / (kap * kap))
def used(k, K, X, Y):
    """concrete runs: a kernel that was evaluated before, at other points of the same shape"""
    for _ in range(k.hist(0, 1)):
        s = k.choice([.3, 3.]); K(s * X[:, None, ...], Y[:, :, None, ...]); K.neg_log(s * X[:, None, ...], Y[:, :, None, ...])
@contract('C02', grid(name=['Gaussian', 'Laplace', 'InverseQuadratic']))
def kernels(k, name):
    k.mild = True
    P = k.mod('cbx.dynamics.polarcbo')
    M, N, L = k.dim('M', hi=3), k.dim('N', hi=4), k.dim('L', hi=4); d = k.dim('d', hi=4)
    kap = k.real('kappa', pos=True)
    X = k.array('X', (M, N, d)); Y = k.array('Y', (M, L, d))
    X0, Y0 = k.snap(X), k.snap(Y)
    K = getattr(P, KER[name])(kappa=kap)
    used(k, K, X, Y)
    v = K(X[:, None, ...], Y[:, :, None, ...]); nl = K.neg_log(X[:, None, ...], Y[:, :, None, ...])
    vt = K(Y[:, :, None, ...], X[:, None, ...])
    k.check_shape('shape', v, (M, L, N)); k.check_shape('shape of neg_log', nl, (M, L, N))
    def r2(m, i, j): return k.Sum((d,), lambda l: (k.at(X0, m, j, l) - k.at(Y0, m, i, l)) * (k.at(X0, m, j, l) - k.at(Y0, m, i, l)))
    def g(m, i, j):
        a = k.at(v, m, i, j)
        if k.sym: k.lemma_sum('square distance', (d,), lambda l: (k.at(X0, m, j, l) - k.at(Y0, m, i, l)) * (k.at(X0, m, j, l) - k.at(Y0, m, i, l)))
        if k.sym and name != 'InverseQuadratic': k.exp_axiom(-neglog(k, name, kap, r2(m, i, j)))
        return [('formula', k.eq(a, kspec(k, name, kap, r2(m, i, j)))), ('exp of minus neg_log', k.eq(a, k.exp(-k.at(nl, m, i, j)))), ('symmetric', k.eq(a, k.at(vt, m, i, j))),
                ('positive', k.lt(0, a) if k.sym or k.num(k.at(nl, m, i, j)) < 700 else True), ('at most one', k.le(a, 1)),
                ('one for coinciding points', k.implies(k.eq(r2(m, i, j), 0), k.eq(a, 1)))]
    k.forall('kernel', (M, L, N), g)
@contract('C02', grid(same=[False, True]))
def taz(k, same):
    """the Taz kernel: a Gaussian in the distance relative to the largest one of the run"""
    P = k.mod('cbx.dynamics.polarcbo')
    M, N, L = k.dim('M', hi=3), k.dim('N', hi=4), k.dim('L', hi=4); d = k.dim('d', hi=4)
    kap = k.real('kappa', pos=True)
    X = k.array('X', (M, N, d)); Y = k.array('Y', (M, L, d))
    if same:        # the points of the first run coincide
        z = k.array('z', (d,))
        X = k.build((M, N, d), lambda m, j, l: k.ite(k.ieq(m, 0), k.at(z, l), k.at(X, m, j, l)))
        Y = k.build((M, L, d), lambda m, j, l: k.ite(k.ieq(m, 0), k.at(z, l), k.at(Y, m, j, l)))
    X0, Y0 = k.snap(X), k.snap(Y)
    K = P.Taz_kernel(kappa=kap)
    used(k, K, X, Y)
    v = K(X[:, None, ...], Y[:, :, None, ...]); nl = K.neg_log(X[:, None, ...], Y[:, :, None, ...])
    k.check_shape('shape', v, (M, L, N)); k.check_shape('shape of neg_log', nl, (M, L, N))
    dist = lambda m, i, j: k.sqrt(k.Sum((d,), lambda l: (k.at(X0, m, j, l) - k.at(Y0, m, i, l))**2))
    if same:
        k.forall('one for coinciding points', (L, N), lambda i, j: k.eq(k.at(v, 0, i, j), 1)); return
    m = k.index(M); D = k.Max(L, lambda i: k.Max(N, lambda j: dist(m, i, j)))
    k.assume(k.lt(0, D))
    k.forall('formula', (L, N), lambda i, j: [('exp of minus neg_log', k.eq(k.at(v, m, i, j), k.exp(-k.at(nl, m, i, j)))),
                                             ('scaled distance', k.eq(k.at(nl, m, i, j), k.div(dist(m, i, j), kap * D)**2))])
@contract('C02', grid(name=['Constant', 'Taz']))
def other_kernels(k, name):
    P = k.mod('cbx.dynamics.polarcbo')
    M, N, L = k.dim('M', hi=3), k.dim('N', hi=4), k.dim('L', hi=4); d = k.dim('d', hi=4)
    X = k.array('X', (M, N, d)); Y = k.array('Y', (M, L, d))
    K = getattr(P, KER[name])(kappa=k.real('kappa', pos=True))
    used(k, K, X, Y)
    v = K(X[:, None, ...], Y[:, :, None, ...]); nl = K.neg_log(X[:, None, ...], Y[:, :, None, ...])
    k.check_shape('shape', v, (M, L, N))
    k.forall('exp of minus neg_log', (M, L, N), lambda m, i, j: k.eq(k.at(v, m, i, j), k.exp(-k.at(nl, m, i, j))))

@contract('C02', grid(multi=[False, True]))
def polar_consensus_function(k, multi):
    P = k.mod('cbx.dynamics.polarcbo')
    M, N, L = k.dim('M', hi=3), k.dim('N', hi=4), k.dim('L', hi=4); dd = ddims(k, multi)
    X = k.array('X', (M, N) + dd); E = k.array('E', (M, N)) + k.choice([0., 3000.]); nl = k.array('nl', (M, L, N)); al = k.array('alpha', (M, 1), pos=True); kf = k.array('kf', (M, 1), pos=True)
    X0, E0, nl0 = k.snap(X), k.snap(E), k.snap(nl)
    c, e = P.compute_polar_consensus(E, X, nl, alpha=al[:, :, None], kernel_factor=kf[:, :, None])
    k.check_shape('shape', c, (M, L) + dd)
    def sh(m, i): return 0 if k.sym else min(k.at(E0, m, j) * k.at(al, m, 0) + k.at(kf, m, 0) * k.at(nl0, m, i, j) for j in range(int(N)))
    def w(m, i, j): return k.exp(-(k.at(kf, m, 0) * k.at(nl0, m, i, j) + k.at(al, m, 0) * k.at(E0, m, j) - sh(m, i)))
    k.forall('weighted mean', (M, L) + dd, lambda m, i, *l: k.eq(k.at(c, m, i, *l), k.div(k.Sum((N,), lambda j: w(m, i, j) * k.at(X0, m, j, *l)), k.Sum((N,), lambda j: w(m, i, j)))))
    k.forall('energies', (M, N), lambda m, j: k.eq(k.at(e, m, j), k.at(E0, m, j)))

@contract('C02', [dict(kern=kk, mode=mo, act=a, batch=b) for kk, mo, a, b in [
    ('Gaussian', 'alpha', 'full', None), ('Gaussian', 'const', 'partial', None), ('Laplace', 'alpha', 'partial', None), ('InverseQuadratic', 'alpha', 'full', None), ('InverseQuadratic', 'const', 'partial', 'part'),
    ('Gaussian', 'alpha', 'partial', 'part'), ('Laplace', 'const', 'partial', 'full'), ('Gaussian', 'alpha', 'partial', 'full'), ('Gaussian', 'const', 'full', 'concat')]])
def polar_dynamic(k, kern, mode, act, batch):
    kap = k.real('kappa', pos=True)
    S = Ens(k, 'PolarCBO', act, batch, noise='constant', kernel=kern, kappa=kap, kernel_factor_mode=mode)
    S.act_now(); S.dyn.pre_step(); S.dyn.compute_consensus(); S.nodup()
    dyn = S.dyn
    k.check_shape('shape', dyn.consensus, (S.K, S.nu) + S.dd)
    def lw(i, j, q):
        r2 = k.Sum(S.dd, lambda l: (k.at(S.x, i, S.B(i, q), l) - k.at(S.x, i, j, l)) * (k.at(S.x, i, S.B(i, q), l) - k.at(S.x, i, j, l)))
        s = S.al(i) if mode == 'alpha' else 1
        return -s * neglog(k, kern, kap, r2) - S.al(i) * S.F(i, S.B(i, q))
    def spec(p, q, i, j, l):
        sh = 0 if k.sym else max(lw(i, j, r) for r in range(int(S.nc)))
        w = lambda r: k.exp(lw(i, j, r) - sh)
        v = k.div(k.Sum((S.nc,), lambda r: w(r) * k.at(S.x, i, S.B(i, r), *l)), k.Sum((S.nc,), w))
        return k.eq(k.at(dyn.consensus, p, q, *l), v)
    S.upd('polar consensus', spec)
