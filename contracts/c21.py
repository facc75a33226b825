import numpy as np
from api import contract, grid
from common import *

RANK = {'1D': 1, '2D': 2, '3D': 3}
class Conv:
    """objective of a declared convention around an arbitrary function of a point; refuses arguments of another rank"""
    def __init__(self, k, conv, F):
        self.k, self.conv, self.F, self.n = k, conv, F, 0
    def __call__(self, z):
        self.n += 1
        self.k.check('the objective is called in its convention', len(self.k.shape(z)) == RANK[self.conv])
        return self.F(z)

@contract('C21', grid(conv=['1D', '2D', '3D'], form=['function', 'wrapped']))
def promoted_value(k, conv, form):
    O = k.mod('cbx.utils.objective_handling')
    M, N, d = k.dim('M', hi=4), k.dim('N', hi=5), k.dim('d', hi=4)
    F = k.objective(1); f = Conv(k, conv, F)
    x = k.array('x', (M, N, d)); x0 = k.snap(x)
    g = O._promote_objective(O.cbx_objective_fh(f) if form == 'wrapped' and conv == '3D' else f, conv)
    for n in range(2):
        v = g(x)
        k.check_shape('shape', v, (M, N))
        k.forall('value', (M, N), lambda i, j: k.eq(k.at(v, i, j), F.at(x0, i, j)))
        k.forall('input untouched', (M, N, d), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))

@contract('C21', grid(form=['ramp', 'constant part', 'single precision part']), modes='con')
def mixed_number_types(k, form):
    """an objective of one particle may return numbers of different types: every value is kept as it is (bounded)"""
    O = k.mod('cbx.utils.objective_handling')
    M, N, d = k.dim('M', hi=4), k.dim('N', hi=5), k.dim('d', hi=4)
    F = k.objective(1, 'F'); F.b = 0.; x = k.array('x', (M, N, d)); x0 = k.snap(x)
    val = lambda z: float(F._val(z)) if z[0] > 0 else 0. if form != 'constant part' else -3.
    def f(z):
        if z[0] > 0: return val(z)
        return dict(ramp=lambda: max(0, -1.), **{'constant part': lambda: -3, 'single precision part': lambda: np.float32(0)})[form]()
    v = O._promote_objective(f, '1D')(x)
    k.check_shape('shape', v, (M, N))
    k.forall('value', (M, N), lambda i, j: k.eq(float(v[i, j]), val(x0[i, j])))

@contract('C21', grid(conv=['1D', '2D', '3D'], act=['full', 'partial']))
def dynamic_evaluates_promoted_objective(k, conv, act):
    """energies of the active runs, with checking on"""
    M, N, d = k.dim('M', hi=4), k.dim('N', hi=5), k.dim('d', hi=4)
    F = k.objective(1); f = Conv(k, conv, F)
    x = k.array('x', (M, N, d)); x0 = k.snap(x)
    act = k.mask('act', M, 'full' if act == 'full' else 'partial'); A = k.active(act)
    D = k.mod('cbx.dynamics')
    dyn = D.CBO(f, f_dim=conv, x=x, sampler=k.sampler(), verbosity=0, check_f_dims=True, term_criteria=[make_term([act])])
    dyn.terminate()
    e = dyn.eval_f(dyn.x[dyn.active_runs_idx, ...])
    k.check_shape('shape', e, (A.K, N))
    k.forall('value', (A.K, N), lambda p, j: k.eq(k.at(e, p, j), F.at(x0, A.run(p), j)))
    k.forall('input untouched', (M, N, d), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))

@contract('C21', grid(conv=['1D', '2D', '3D']))
def wrong_output_shape(k, conv):
    """with checking on, an objective is accepted exactly if the promoted objective returns an (M,N) array"""
    D = k.mod('cbx.dynamics')
    M, N, d = k.dim('M', hi=3), k.dim('N', hi=4), k.dim('d', hi=3)
    a, b = k.dim('a', hi=3), k.dim('b', hi=4)
    if not k.sym: k.assume(not (a == M and b == N))
    else: k.assume(k.not_(k.and_(k.ieq(a, M), k.ieq(b, N))))
    val = k.array('val', (a, b))
    if conv == '3D': f = lambda z: val
    elif conv == '2D':
        vec = k.array('vec', (a,)); f = lambda z: vec
        k.assume(k.not_(k.eq(a, M * N)))
    else:
        f = lambda z: val[0]
        k.assume(k.not_(k.ieq(b, 1)))
    k.raises('rejected', lambda: D.CBO(f, f_dim=conv, x=k.array('x', (M, N, d)), sampler=k.sampler(), verbosity=0), ValueError)

@contract('C21', modes='con')
def wrong_declaration(k):
    """objectives written for another convention are rejected when checking is on"""
    import numpy as np
    D = k.mod('cbx.dynamics')
    M, N, d = int(k.dim('M', lo=1, hi=4)), int(k.dim('N', lo=2, hi=6)), int(k.dim('d', lo=2, hi=4))
    one = lambda z: np.sum(z**2)                                     # one point
    lst = lambda z: np.sum(z**2, axis=1)                             # list of points
    ens = lambda z: np.sum(z**2, axis=2)                             # ensemble
    good = {('1D', one), ('2D', lst), ('3D', ens)}
    for conv in ('1D', '2D', '3D'):
        for f in (one, lst, ens):
            mk = lambda: D.CBO(f, f_dim=conv, x=k.rng.uniform(-1, 1, (M, N, d)), verbosity=0)
            if (conv, f) in good: k.check('accepted', mk().f(np.ones((M, N, d))).shape == (M, N))
            elif conv == '3D' and f is lst and d == N: continue      # (M,d) is the right shape by accident
            else: k.raises('rejected', mk, Exception)
            # without checking nothing is evaluated
            n = []
            dyn = D.CBO(lambda z: n.append(1), f_dim=conv, x=np.zeros((M, N, d)), verbosity=0, check_f_dims=False)
            k.check('no evaluation without checking', n == [] and (dyn.num_f_eval == 0).all())

@contract('C21')
def declarations(k):
    O = k.mod('cbx.utils.objective_handling')
    f = k.objective(1)
    k.raises('unknown convention', lambda: O._promote_objective(f, '4D'), ValueError)
    k.raises('no function', lambda: O._promote_objective(3., '3D'), TypeError)
    k.check('ensemble convention is the identity', O._promote_objective(f, '3D') is f)
    k.check('list convention', type(O._promote_objective(f, '2D')) is O.cbx_objective_f2D)
    k.check('point convention', type(O._promote_objective(f, '1D')) is O.cbx_objective_f1D)

@contract('C21', grid(rank=[1, 2, 3]))
def dimension_check(k, rank):
    """with checking on, an objective is accepted exactly if it returns one value per run and particle"""
    D = k.mod('cbx.dynamics')
    M, N, d = k.dim('M', hi=3), k.dim('N', hi=3), k.dim('d', hi=3)
    sh = tuple(k.dim('r%d' % t, hi=3) for t in range(rank)); v = k.array('v', sh); n = []
    def f(z): n.append(k.shape(z)); return v
    x = k.array('x', (M, N, d))
    dyn = D.CBO(f, f_dim='3D', x=k.snap(x), verbosity=0, check_f_dims=False)
    k.check('nothing evaluated without checking', n == []); k.forall('no evaluation counted', (M,), lambda i: k.ieq(k.at(dyn.num_f_eval, i), 0))
    if rank == 2 and bool(k.and_(k.ieq(sh[0], M), k.ieq(sh[1], N))):
        dyn = D.CBO(f, f_dim='3D', x=k.snap(x), verbosity=0, check_f_dims=True)
        k.check('one evaluation of the ensemble', len(n) == 1)
        k.forall('counted', (M,), lambda i: k.ieq(k.at(dyn.num_f_eval, i), N))
        k.forall('positions', (M, N, d), lambda i, j, l: k.eq(k.at(dyn.x, i, j, l), k.at(x, i, j, l)))
    else: k.raises('rejected', lambda: D.CBO(f, f_dim='3D', x=k.snap(x), verbosity=0, check_f_dims=True), ValueError)
