from api import contract, grid
from common import *
from c06 import AUX, build

STEP = ([dict(cls=c, batch=b, corr=h) for c in ('CBO', 'CBOMemory', 'PSO', 'MirrorCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'HyperSurfaceCBO', 'PolarCBO', 'AdamCBO')
         for b in (None, 'part', 'full') for h in ('no_correction', 'heavi_side', 'heavi_side_reg')
         if (h == 'no_correction' or (c in ('CBO', 'CBOMemory', 'PSO', 'MirrorCBO') and (b, h) != ('full', 'heavi_side_reg')))] +
        [dict(cls='CBS', batch=None, corr='no_correction')])

def charged(k, S, calls, runs):
    """points evaluated per run of `runs`: the calls carry one block of points per run"""
    n = 0
    for c in calls:
        sh = k.shape(c)
        k.check('one block of points per charged run', k.ieq(sh[0], runs))
        n = n + sh[1]
    return n

@contract('C09', STEP)
def step_charges_evaluations(k, cls, batch, corr):
    """a step charges every active run with the number of its points passed to the objective, and nothing to the others"""
    kw = {}
    if cls == 'RegCombinationCBO' and not k.sym and k.choice([0, 1]): kw['eps'] = .1
    S = build(k, cls, batch, 'covariance' if cls == 'CBS' else 'isotropic', act='partial', corr=corr, **kw) if corr != 'heavi_side_reg' else build(k, cls, batch, 'isotropic', act='partial', corr=corr)
    n0 = len(S.f.calls)
    S.step(modular=cls in ('CBOMemory', 'PSO'))
    calls = S.f.calls[n0:]
    n = charged(k, S, calls, S.K)
    k.check('the step evaluates the objective', len(calls) >= 1)
    k.forall('charge', (S.M,), lambda i: k.ieq(k.at(S.dyn.num_f_eval, i) - k.at(S.nf, i), k.ite(S.A.has(i), n, 0)))

@contract('C09', grid(cls=['CBOMemory', 'PSO']))
def post_step_charges_nothing(k, cls):
    """the book-keeping after the inner step evaluates nothing and charges nothing"""
    S = build(k, cls, None, 'isotropic')
    dyn = S.dyn
    dyn.x_old = k.snap(dyn.x); dyn.y_old = k.snap(dyn.y)
    dyn.best_energy = k.array('best_energy', (S.M,)); 
    n0 = len(S.f.calls)
    S.act_now(); dyn.post_step()
    k.check('no evaluation', len(S.f.calls) == n0)
    k.forall('charge', (S.M,), lambda i: k.ieq(k.at(dyn.num_f_eval, i), k.at(S.nf, i)))

@contract('C09', grid(cls=['CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'CBS'], check=[False, True]))
def construction(k, cls, check):
    """construction: all runs are charged with the points evaluated by the constructor"""
    M, N = k.dim('M', hi=4), k.dim('N', hi=4); dd = ddims(k)
    f = k.objective(1); D = k.mod('cbx.dynamics')
    kw = dict(constraints=[dict(name='sphere')]) if cls in ('DriftConstrainedCBO', 'RegCombinationCBO') else {}
    dyn = getattr(D, cls)(f, f_dim='3D', x=k.array('x0', (M, N) + dd), verbosity=0, check_f_dims=check, sampler=k.sampler(), **kw)
    n = charged(k, None, f.calls, M)
    k.check_shape('one counter per run', dyn.num_f_eval, (M,))
    k.forall('charge', (M,), lambda i: k.ieq(k.at(dyn.num_f_eval, i), n))

@contract('C09', grid(batch=[None, 'part'], act=['full', 'partial'], cls=['CBO', 'CBOMemory']))
def resampling_charges(k, batch, act, cls):
    """tracking the best consensus evaluates and charges only the resampled active runs"""
    S = build(k, cls, batch, 'isotropic', act=act)
    dyn = S.dyn
    R = k.mod('cbx.utils.resampling')
    S.step(modular=True)
    sel = k.mask('sel', S.M, 'any'); G = k.active(sel)
    import numpy
    ids = k.mod('numpy').where(sel)[0] if k.sym else numpy.where(sel)[0]
    rs = R.resampling([lambda d: ids], sigma_indep=k.real('sigma_indep'), track_best_consensus=True)
    for rep in range(2):
        nf = k.snap(dyn.num_f_eval); n0 = len(S.f.calls)
        rs(dyn)
        calls = S.f.calls[n0:]
        both = k.active(k.mod('numpy').logical_and(sel, S.act)) if k.sym else k.active(sel & S.act)
        if len(calls):
            n = charged(k, S, calls, both.K)
        else: n = 0
        k.forall('charge', (S.M,), lambda i: k.ieq(k.at(dyn.num_f_eval, i) - k.at(nf, i), k.ite(k.and_(S.A.has(i), k.at(sel, i)), n, 0)))

@contract('C09', grid(act=['full', 'partial']))
def stagnation_criterion(k, act):
    """the energy stagnation criterion evaluates the consensus of the active runs and charges exactly these"""
    S = build(k, 'CBO', None, 'isotropic', act=act, warm=0)
    dyn = S.dyn
    T = k.mod('cbx.utils.termination')
    c = T.energy_stagnation_term(patience=3)
    c(dyn); 
    if not k.sym: k.check('nothing before the first step', len(S.f.calls) == (0))
    S.step()
    for rep in range(2):
        nf = k.snap(dyn.num_f_eval); n0 = len(S.f.calls)
        c(dyn)
        n = charged(k, S, S.f.calls[n0:], S.K)
        k.forall('charge', (S.M,), lambda i: k.ieq(k.at(dyn.num_f_eval, i) - k.at(nf, i), k.ite(S.A.has(i), n, 0)))

@contract('C09', grid(rule=['weighted', 'simple'], batch=[None, 'part']))
def regularisation_schedule(k, rule, batch):
    """updating the regularisation parameter charges all runs with the points it evaluates"""
    S = build(k, 'RegCombinationCBO', batch, 'isotropic', act='full', warm=0) if False else None
    M, N = k.dim('M', hi=4), k.dim('N', hi=4); d = k.dim('d', hi=3)
    f = k.objective(1); D = k.mod('cbx.dynamics'); R = k.mod('cbx.regularizers')
    ro = R.regularize_objective(f, dict(name='lp') if False else (lambda x: (x * x).sum(axis=-1)))
    box = Box([k.mask('act', M, 'partial')])
    kw = dict(batch_args=dict(size=1)) if batch and not k.sym else {}
    dyn = D.CBO(ro, f_dim='3D', x=k.array('x0', (M, N, d)), verbosity=0, check_f_dims=False, term_criteria=[make_term(box)], **kw)
    dyn.alpha = k.array('alpha', (M, 1), pos=True)
    sch = R.regularization_paramter_scheduler(theta=k.real('theta', pos=True), rule_mean=rule)
    nf = k.snap(dyn.num_f_eval); n0 = len(f.calls)
    dyn.terminate()
    sch.update(dyn)
    n = charged(k, None, f.calls[n0:], M)
    k.forall('charge', (M,), lambda i: k.ieq(k.at(dyn.num_f_eval, i) - k.at(nf, i), n))

@contract('C09', grid(conv=['fh', '1D', '2D'], rank=[1, 2, 3]))
def counting_objective(k, conv, rank):
    """the counter of a counting objective grows by the number of points passed to it"""
    H = k.mod('cbx.utils.objective_handling')
    calls = []
    d = k.dim('d', hi=3); dims = [k.dim('A', hi=4), k.dim('B', hi=4)][:rank - 1]
    f = k.objective(1)
    o = dict(fh=H.cbx_objective_fh, **{'1D': H.cbx_objective_f1D, '2D': H.cbx_objective_f2D})[conv](f)
    if k.sym and conv == '1D': o.apply = lambda x: None            # evaluation itself: C21
    k.check('starts at zero', k.ieq(o.num_eval, 0))
    c0 = k.int('count', 0, 50); o.num_eval = c0
    x = k.array('x', tuple(dims) + (d,))
    o(x)
    n = 1
    for e in dims: n = n * e
    k.check('counter', k.ieq(o.num_eval, c0 + n))
    o(x)
    k.check('counter after two calls', k.ieq(o.num_eval, c0 + 2 * n))
    o.reset()
    k.check('reset', k.ieq(o.num_eval, 0))

@contract('C09', grid(f_dim=['1D', '2D', '3D'], cls=['CBO', 'CBOMemory', 'PSO', 'PolarCBO', 'CBS']), modes='con')
def counters_agree(k, f_dim, cls):
    """whole optimisations: the counter of the objective is the sum of the counters of the runs"""
    import numpy as np
    M, N, d = (int(k.dim(n, lo=l, hi=h)) for n, l, h in (('M', 1, 3), ('N', 2, 5), ('d', 1, 3)))
    pts = [0]
    H = k.mod('cbx.utils.objective_handling')
    def f3(x): pts[0] += x.shape[0] * x.shape[1]; return (x ** 2).sum(-1)
    def f2(x): pts[0] += x.shape[0]; return (x ** 2).sum(-1)
    def f1(x): pts[0] += 1; return float((x ** 2).sum())
    f = H.cbx_objective_fh(f3) if f_dim == '3D' else (f1 if f_dim == '1D' else f2)
    D = k.mod('cbx.dynamics')
    kw = {} if cls == 'CBS' else dict(batch_args=k.choice([None, dict(size=max(1, N - 1))]), correction=k.choice(['no_correction', 'heavi_side']) if cls != 'PolarCBO' else 'no_correction')
    stop = k.rng.integers(0, 5, M)
    dyn = getattr(D, cls)(f, f_dim=f_dim, x=k.array('x0', (M, N, d)), verbosity=0, check_f_dims=True, term_criteria=[lambda dn: dn.it >= stop], **kw)
    dyn.optimize()
    k.check('objective counter', dyn.f.num_eval == dyn.num_f_eval.sum())
    if f_dim != '1D': k.check('points', pts[0] == dyn.num_f_eval.sum())
