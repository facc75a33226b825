from api import contract, grid
from common import *

def nonzero(k, v):
    """1 for an entry that counts as non-zero: numerically (numpy.isclose), the inputs being zero or clearly different from it"""
    return k.ite(k.le(k.abs(v), 1e-8), 0, 1) if k.sym else (0 if v == 0 else 1)

REG = ['L0', 'L1', 'Plane', 'Sphere', 'Quadric']
def make(k, name, d):
    """(argument of the constructor, specification of the regulariser value at a point X(l))"""
    if name == 'L0':
        la = k.real('w'); return dict(name='L0', lamda=la), lambda X: la * k.Sum((d,), lambda l: nonzero(k, X(l)))
    if name == 'L1':
        la = k.real('w'); return dict(name='L1', lamda=la), lambda X: la * k.Sum((d,), lambda l: k.abs(X(l)))
    if name == 'Plane':
        a, b = k.array('a', (d,)), k.real('b')
        k.assume(k.lt(0, k.Sum((d,), lambda l: k.at(a, l)**2)))
        return dict(name='Plane', a=a, b=b), lambda X: k.div(k.abs(k.Sum((d,), lambda l: k.at(a, l) * X(l)) - b), k.sqrt(k.Sum((d,), lambda l: k.at(a, l)**2)))
    if name == 'Sphere':
        r = k.real('r', pos=True); return dict(name='Sphere', r=r), lambda X: k.abs(k.sqrt(k.Sum((d,), lambda l: X(l)**2)) - r)
    A, b, c = k.array('A', (d, d)), k.array('b', (d,)), k.real('c')
    return dict(name='Quadric', A=A, b=b, c=c), lambda X: k.abs(k.Sum((d, d), lambda l, m: X(l) * k.at(A, l, m) * X(m)) + k.Sum((d,), lambda l: k.at(b, l) * X(l)) + c)

def zeros_or_clear(k, x, shape):
    """the count of non-zeros is specified on entries that are exactly zero or numerically distinct from it"""
    if k.sym: k.assume_forall(shape, lambda *i: k.or_(k.ieq(k.at(x, *i), 0), k.lt(1e-6, k.abs(k.at(x, *i)))))
    else: x[k.rng.random(x.shape) < .4] = 0.

@contract('C28', grid(name=REG, shape=['ensemble', 'list', 'point']))
def regularisers(k, name, shape):
    d = k.dim('d', hi=4); M, N = k.dim('M', hi=3), k.dim('N', hi=4)
    b = dict(ensemble=(M, N), list=(N,), point=())[shape]
    x = k.array('x', b + (d,))
    arg, spec = make(k, name, d)
    if name == 'L0': zeros_or_clear(k, x, b + (d,))
    R = k.mod('cbx.regularizers')
    how = [lambda: R.select_reg_func(arg), lambda: getattr(R, dict(L0='L0', L1='L1', Plane='HyperplaneDistance', Sphere='SphereDistance', Quadric='QuadricDistance')[name])(**{q: v for q, v in arg.items() if q != 'name'})]
    x0 = k.snap(x)
    for h in how:
        n = dict(arg)
        v = h()(x)
        k.check('argument not modified', set(arg) == set(n))
        if b: k.check_shape('shape', v, b)
        k.forall('value', b, lambda *i: k.eq(k.at(v, *i), spec(lambda l: k.at(x0, *i, l)))) if b else k.check('value', k.eq(v, spec(lambda l: k.at(x0, l))))
    k.forall('argument untouched', b + (d,), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))

@contract('C28', grid(name=['L0', 'L1', 'Sphere', 'callable']))
def defaults_and_callables(k, name):
    d = k.dim('d', hi=3); M, N = k.dim('M', hi=3), k.dim('N', hi=4); x = k.array('x', (M, N, d))
    R = k.mod('cbx.regularizers')
    if name == 'L0': zeros_or_clear(k, x, (M, N, d))
    if name == 'callable':
        g = k.objective(1, 'Greg'); k.check('a callable is used as it is', R.select_reg_func(g) is g); return
    v = R.select_reg_func(name)(x)
    spec = dict(L0=lambda X: k.Sum((d,), lambda l: nonzero(k, X(l))), L1=lambda X: k.Sum((d,), lambda l: k.abs(X(l))),
                Sphere=lambda X: k.abs(k.sqrt(k.Sum((d,), lambda l: X(l)**2)) - 1))[name]
    k.forall('value with default parameters', (M, N), lambda i, j: k.eq(k.at(v, i, j), spec(lambda l: k.at(x, i, j, l))))

def power(k, v, p): return k.pow(v, p) if p != 1 else v

@contract('C28', grid(p=[1, 2, 'real'], lamda=['per run', 'scalar', 'default'], nested=[False, True]))
def regularised_value(k, p, lamda, nested):
    """f + lambda_i * g^p per particle of run i, also for a selection of runs and for nested regularisations"""
    d = k.dim('d', hi=3); M, N = k.dim('M', hi=4), k.dim('N', hi=4)
    f, g, h = k.objective(1), k.objective(1, 'Greg'), k.objective(1, 'Hreg')
    P = k.real('p', pos=True) if p == 'real' else p
    if p == 'real' and k.sym: k.assume(k.not_(k.ieq(P, 1)))      # p = 1 is the first configuration
    x = k.array('x', (M, N, d))
    if not k.sym or p == 'real':
        if k.sym: SQ = lambda G: (lambda y: G(y))
        gg = g if k.sym else (lambda y: abs(g(y)))
    else: gg = g
    gat = (lambda X, i, j: g.at(X, i, j)) if k.sym else (lambda X, i, j: abs(g.at(X, i, j)))
    R = k.mod('cbx.regularizers')
    base = f
    mu = None
    if nested:
        mu = k.array('mu', (M, 1), nonneg=True)
        base = R.regularize_objective(f, h, lamda=k.snap(mu), lamda_broadcasted=True)
    kw = {}
    if lamda == 'per run': L = k.array('lam_i', (M, 1), nonneg=True); lam = lambda i: k.at(L, i, 0); kw = dict(lamda=k.snap(L), lamda_broadcasted=True)
    elif lamda == 'scalar': s = k.real('lam_s', nonneg=True); lam = lambda i: s; kw = dict(lamda=s)
    else: lam = lambda i: 1
    if p != 1: kw['p'] = P
    ro = R.regularize_objective(base, gg, **kw)
    val = lambda X, i, r, j: f.at(X, i, j) + (k.at(mu, r, 0) * h.at(X, i, j) if nested else 0) + lam(r) * power(k, gat(X, i, j), P)
    v = ro(x)
    k.check_shape('shape', v, (M, N))
    k.forall('value', (M, N), lambda i, j: k.eq(k.at(v, i, j), val(x, i, i, j)))
    k.check_shape('one parameter per run', ro.lamda, (M, 1))
    k.forall('parameter', (M,), lambda i: k.eq(k.at(ro.lamda, i, 0), lam(i)))
    # selected runs: other points, the parameters of these runs
    A = k.active(k.mask('act', M, 'partial'))
    K = A.K
    idx = k.build((K,), lambda q: A.run(q), 'i')
    y = k.array('y', (K, N, d))
    w = ro.eval_runs(y, x, idx)
    k.check_shape('shape for selected runs', w, (K, N))
    k.forall('value for selected runs', (K, N), lambda q, j: k.eq(k.at(w, q, j), val(y, q, A.run(q), j)))
    k.forall('parameter unchanged', (M,), lambda i: k.eq(k.at(ro.lamda, i, 0), lam(i)))

@contract('C28', [dict(act=a, batch=b) for a in ('full', 'partial') for b in (None, 'part')])
def energies_in_step(k, act, batch):
    """the energies of a dynamic on a regularised objective use the parameter of the own run"""
    R = k.mod('cbx.regularizers')
    f, g = k.objective(1), k.objective(1, 'Greg')
    ro = R.regularize_objective(f, g)
    S = Ens(k, 'CBO', act, batch, noise='anisotropic', f=ro)
    L = k.array('lam_i', (S.M, 1), nonneg=True); ro.lamda = k.snap(L); ro.lamda_broadcasted = True
    dyn = S.dyn
    S.step(modular=True)
    def e(q, j):
        i = S.A.run(q); jj = S.B(i, j)
        return k.eq(k.at(dyn.energy, i, jj), f.at(S.x, i, jj) + k.at(L, i, 0) * g.at(S.x, i, jj))
    k.forall('energy', (S.K, S.nc), e)
    k.forall('parameter unchanged', (S.M,), lambda i: k.eq(k.at(ro.lamda, i, 0), k.at(L, i, 0)))

@contract('C28', [dict(rule=r, state=s, caps=c) for r in ('weighted', 'simple') for s in ('arbitrary', 'initial') for c in ('given', 'default')])
def schedule(k, rule, state, caps):
    """one update of theta and lambda, per run"""
    R = k.mod('cbx.regularizers')
    M, N, d = k.dim('M', hi=4), k.dim('N', hi=4), k.dim('d', hi=3)
    f, g = k.objective(1), k.objective(1, 'Greg')
    l0 = k.real('lam_0', nonneg=True); th0 = k.real('theta_0', pos=True)
    ft, fl = k.real('factor_theta', pos=True), k.real('factor_lamda', pos=True)
    if not k.sym: th0 = k.choice([th0, th0 * 30.])
    ro = R.regularize_objective(f, g, lamda=l0)
    kw = dict(theta=th0, factor_theta=ft, factor_lamda=fl)
    tm, lm = 1e5, 1e15
    if caps == 'given': tm, lm = k.real('theta_max', pos=True), k.real('lamda_max', pos=True); kw.update(theta_max=tm, lamda_max=lm)
    if rule == 'simple': kw['rule_mean'] = 'simple'
    sch = R.regularization_paramter_scheduler(**kw)
    x = k.array('x', (M, N, d))
    dyn = k.mod('cbx.dynamics').CBO(ro, f_dim='3D', x=x, verbosity=0, check_f_dims=False)
    al = k.array('alpha', (M, 1), pos=True); dyn.alpha = k.snap(al)
    if state == 'arbitrary':
        TH, L = k.array('theta', (M,), pos=True), k.array('lam_i', (M, 1), nonneg=True)
        sch.theta = k.snap(TH); sch.params_broadcasted = True
        ro.lamda = k.snap(L); ro.lamda_broadcasted = True
        th, lam = (lambda i: k.at(TH, i)), (lambda i: k.at(L, i, 0))
    else: th, lam = (lambda i: th0), (lambda i: l0)
    sch.update(dyn)
    E = lambda i, j: f.at(x, i, j) + lam(i) * g.at(x, i, j)
    def mean(i):
        if rule == 'simple': return k.div(k.Sum((N,), lambda j: g.at(x, i, j)), N)
        sh = 0 if k.sym else min(E(i, j) for j in range(int(N)))
        w = lambda j: k.exp(-k.at(al, i, 0) * (E(i, j) - sh))
        return k.div(k.Sum((N,), lambda j: w(j) * g.at(x, i, j)), k.Sum((N,), w))
    if not k.sym:       # the comparison is specified away from exact ties
        k.assume(all(abs(mean(i) - 1 / th(i)**.5) > 1e-9 for i in range(int(M))))
    ok = lambda i: k.le(mean(i), k.div(1, k.sqrt(th(i))))
    k.check_shape('one theta per run', sch.theta, (M,)); k.check_shape('one lambda per run', ro.lamda, (M, 1))
    k.forall('theta', (M,), lambda i: k.eq(k.at(sch.theta, i), k.ite(ok(i), th(i) * ft, k.min(k.div(th(i), ft), tm))))
    k.forall('lambda', (M,), lambda i: k.eq(k.at(ro.lamda, i, 0), k.min(k.max(k.ite(ok(i), lam(i), lam(i) * fl), 0), lm)))
    k.forall('range of lambda', (M,), lambda i: k.and_(k.le(0, k.at(ro.lamda, i, 0)), k.le(k.at(ro.lamda, i, 0), lm)))
    k.forall('positions', (M, N, d), lambda *i: k.eq(k.at(dyn.x, *i), k.at(x, *i)))

@contract('C28', modes='con')
def schedule_tie(k):
    """a mean regulariser of exactly 1/sqrt(theta) counts as small enough"""
    R = k.mod('cbx.regularizers'); np = k.mod('numpy')
    e = k.choice([0, 1, 2, 3]); m = .5 ** e; rule = k.choice(['simple', 'weighted'])
    M, N = int(k.dim('M', hi=4)), 2 ** k.choice([0, 1, 2])
    ro = R.regularize_objective(lambda x: 0. * x.sum(-1), lambda x: 0. * x.sum(-1) + m, lamda=1.)
    dyn = k.mod('cbx.dynamics').CBO(ro, f_dim='3D', x=k.array('x', (M, N, 2)), verbosity=0, check_f_dims=False)
    sch = R.regularization_paramter_scheduler(theta=4. ** e, factor_theta=2., factor_lamda=3., rule_mean=rule)
    sch.update(dyn)
    k.check('theta', bool((sch.theta == 2. * 4. ** e).all())); k.check('lambda', bool((ro.lamda == 1.).all()))
