from api import contract, grid
from common import *

def weighted(k, E, al, n):
    sh = 0 if k.sym else None
    return E
@contract('C01', grid(fn=['default', 'checked', 'rescale'], multi=[False, True]))
def consensus_function(k, fn, multi):
    """the two consensus computations on arbitrary energies"""
    P = k.mod('cbx.dynamics.pdyn'); H = k.mod('cbx.dynamics.hypersurfacecbo')
    M, N = k.dim('M', hi=4), k.dim('N', hi=6); dd = ddims(k, multi)
    f = H.compute_consensus_rescale if fn == 'rescale' else P.compute_consensus_default(check_coeffs=(fn == 'checked' and not k.sym))
    off = k.array('offset', (M, 1), lo=-3000., hi=3000.)
    E = k.array('E', (M, N)) + k.choice([0., 0., 1.]) * off
    X = k.array('X', (M, N) + dd)
    al = k.array('alpha', (M, 1), pos=True) * k.choice([1., 1., 1e3])
    E0, X0, al0 = k.snap(E), k.snap(X), k.snap(al)
    c, e = f(E, X, al)
    k.check_shape('shape', c, (M, 1) + dd)
    k.check_shape('energy shape', e, (M, N))
    k.forall('energy is returned', (M, N), lambda i, j: k.eq(k.at(e, i, j), k.at(E0, i, j)))
    def sh(i): return 0 if k.sym else min(k.at(E0, i, j) for j in range(int(N)))
    def w(i, j): return k.exp(-k.at(al0, i, 0) * (k.at(E0, i, j) - sh(i)))
    def W(i): return k.Sum((N,), lambda j: w(i, j))
    def spec(i, *l): return k.div(k.Sum((N,), lambda j: w(i, j) * k.at(X0, i, j, *l)), W(i))
    k.forall('weighted mean', (M,) + dd, lambda i, *l: k.eq(k.at(c, i, 0, *l), spec(i, *l)))
    k.forall('inputs unchanged', (M, N) + dd, lambda i, j, *l: k.and_(k.eq(k.at(X, i, j, *l), k.at(X0, i, j, *l)), k.eq(k.at(E, i, j), k.at(E0, i, j))))
    # adding a constant to all objective values of a run
    sh_ = k.array('const', (M, 1), lo=-500., hi=500.)
    c2, _ = f(E0 + sh_, X0, al0)
    k.forall('shift invariance', (M,) + dd, lambda i, *l: k.eq(k.at(c2, i, 0, *l), k.at(c, i, 0, *l)) if k.sym else abs(k.at(c2, i, 0, *l) - k.at(c, i, 0, *l)) <= 1e-6)

@contract('C01', grid(multi=[False, True]))
def convex_hull(k, multi):
    """every coordinate lies between the smallest and the largest coordinate of the batch"""
    P = k.mod('cbx.dynamics.pdyn')
    M, N = k.dim('M', hi=4), k.dim('N', hi=6); dd = ddims(k, multi)
    E = k.array('E', (M, N)); X = k.array('X', (M, N) + dd); al = k.array('alpha', (M, 1), pos=True)
    X0, E0, al0 = k.snap(X), k.snap(E), k.snap(al)
    c, _ = P.compute_consensus_default()(E, X, al)
    if k.sym:
        i = k.int('run'); l = tuple(k.int('l%d' % n) for n in range(len(dd)))
        k.assume(k.lt(i, M))
        for a, e in zip(l, dd): k.assume(k.lt(a, e))
        lo = k.Min(N, lambda j: k.at(X0, i, j, *l)); hi = k.Max(N, lambda j: k.at(X0, i, j, *l))
        w = lambda j: k.exp(-k.at(al0, i, 0) * k.at(E0, i, j))
        m1, m2 = k.real('lo'), k.real('hi')
        # any lower and upper bound of the batch bounds the consensus
        k.assume_forall((N,), lambda j: k.and_(k.le(m1, k.at(X0, i, j, *l)), k.le(k.at(X0, i, j, *l), m2)))
        k.lemma_sum('above', (N,), lambda j: w(j) * (k.at(X0, i, j, *l) - m1))
        k.lemma_sum('below', (N,), lambda j: w(j) * (m2 - k.at(X0, i, j, *l)))
        v = k.at(c, i, 0, *l)
        k.check('lower bound', k.le(m1, v)); k.check('upper bound', k.le(v, m2))
    else:
        def g(i, *l):
            v = k.at(c, i, 0, *l)
            return k.and_(v >= k.Min(N, lambda j: k.at(X0, i, j, *l)) - 1e-9, v <= k.Max(N, lambda j: k.at(X0, i, j, *l)) + 1e-9)
        k.forall('hull', (M,) + dd, g)

@contract('C01', [dict(cls=c, act=a, batch=b, multi=m) for c in ('CBO', 'HyperSurfaceCBO') for a, b, m in
                  [('full', None, False), ('partial', None, False), ('full', 'part', False), ('partial', 'part', False), ('partial', 'full', False), ('partial', 'concat', False)] + ([('partial', None, True), ('partial', 'part', True)] if c == 'CBO' else [])])
def consensus_of_dynamic(k, cls, act, batch, multi):
    S = Ens(k, cls, act, batch, multi, noise='isotropic' if cls == 'HyperSurfaceCBO' else 'constant')
    S.act_now(); S.dyn.pre_step(); S.dyn.compute_consensus(); S.nodup()
    dyn = S.dyn
    k.check_shape('shape', dyn.consensus, (S.K, 1) + S.dd)
    k.forall('consensus', (S.K,) + S.dd, lambda p, *l: k.eq(k.at(dyn.consensus, p, 0, *l), S.c(S.A.run(p), l)))
    def en(p, q):
        i = S.A.run(p)
        return k.eq(k.at(dyn.energy, i, S.B(i, q)), S.F(i, S.B(i, q)))
    k.forall('energies of the batch', (S.K, S.nc), en)
