from api import contract, grid
from common import *
from c06 import AUX, build

KER = [dict(cls='PolarCBO', batch=b, noise='anisotropic', corr='no_correction', kernel=n) for n in ('Laplace', 'InverseQuadratic', 'Taz') for b in (None, 'part')]
CFG = (KER + [dict(cls=c, batch=b, noise=n, corr='no_correction') for c, n in (('CBO', 'anisotropic'), ('CBOMemory', 'isotropic'), ('PSO', 'anisotropic'), ('AdamCBO', 'isotropic'), ('MirrorCBO', 'isotropic'), ('PolarCBO', 'anisotropic'), ('HyperSurfaceCBO', 'isotropic'), ('DriftConstrainedCBO', 'isotropic'), ('RegCombinationCBO', 'anisotropic')) for b in (None, 'part')] +
       [dict(cls='CBO', batch='full', noise='constant', corr='no_correction'), dict(cls='CBO', batch=None, noise='isotropic', corr='heavi_side'), dict(cls='CBO', batch='part', noise='anisotropic', corr='heavi_side_reg'),
        dict(cls='MirrorCBO', batch='full', noise='anisotropic', corr='heavi_side'), dict(cls='CBO', batch=None, noise='covariance', corr='no_correction'), dict(cls='CBS', batch=None, noise='covariance', corr='no_correction')])

def one_run(k, S, r, p, cls, noise, corr, pre, kernel=None):
    """the same dynamic with run r alone: its state, its parameters, its batch and its noise sample"""
    D = k.mod('cbx.dynamics')
    row = lambda A, kind='f': k.build((1,) + k.shape(A)[1:], lambda i, *j: k.at(A, r, *j), kind)
    cnt = [0]
    def sampler(size=None):
        s = S.smp.samples[S.s0 + cnt[0]]; cnt[0] += 1
        return k.build((1,) + k.shape(s)[1:], lambda i, *j: k.at(s, p, *j))
    kw = dict(constraints=[dict(name='sphere')]) if cls in ('DriftConstrainedCBO', 'RegCombinationCBO') else {}
    if kernel: kw['kernel'] = kernel
    if S.batched: kw['batch_args'] = dict(size=S.b, partial=S.partial)
    if S.eps_c is not None: kw['correction_eps'] = S.eps_c
    dyn = getattr(D, cls)(S.f, f_dim='3D', x=row(S.x_init), noise=noise, sampler=sampler, dt=S.dt, sigma=S.sig, lamda=S.lam, verbosity=0, check_f_dims=False,
                          post_process=lambda d: None, term_criteria=[make_term(Box([k.mask('one', 1, 'full')]))], correction=corr, **kw)
    for n, (v, kind) in pre.items(): setattr(dyn, n, row(v, kind))
    return dyn

@contract('C10', CFG, timeout=120)
def equals_the_separate_run(k, cls, batch, noise, corr, kernel=None):
    """a step of the ensemble, seen in one active run, is the step of that run alone"""
    args = {}
    if corr != 'no_correction': args['corr'] = corr
    if kernel: args['kernel'] = kernel
    S = build(k, cls, batch, noise, **args)
    dyn = S.dyn; M, N, dd = S.M, S.N, S.dd
    if cls not in ('CBOMemory', 'PSO'):
        E = k.array('energy', (M, N)); dyn.energy = k.snap(E)
    else: E = S.energy
    B = k.array('best_energy', (M,)); P = k.array('best_particle', (M,) + dd)
    dyn.best_energy = k.snap(B); dyn.best_particle = k.snap(P); batched = S.batched
    pre = dict(x=(S.x, 'f'), alpha=(S.alpha, 'f'), energy=(E, 'f'), num_f_eval=(S.nf, 'i'), best_energy=(B, 'f'), best_particle=(P, 'f'))
    for n, v in S.aux.items(): pre[n] = (v, 'f')
    for n in ('Cov_sqrt',):
        if n in dyn.__dict__ and (k.sym or getattr(dyn, n).shape[0] == S.M): pre[n] = (k.snap(getattr(dyn, n)), 'f')
    if S.batched: pre['indices'] = (k.snap(dyn.indices), 'i')
    modular = k.sym        # the book-keeping after the inner step: contract post_step
    if S.batched and not k.sym: k.assume(dyn.indices.shape[1] >= S.b)     # no reshuffle in this step
    p = k.index(S.K); r = S.A.run(p)
    it, t = dyn.it, dyn.t
    S.step(modular=modular)
    one = one_run(k, S, r, p, cls, noise, corr, pre, kernel)
    one.it, one.t = it, t
    one.terminate()
    if modular: one.pre_step(); one.inner_step()
    else: one.step()
    same = lambda nm, exts, f: k.forall(nm, exts, f)
    if S.batched: k.forall('batch', (S.b,), lambda q: k.ieq(k.at(one.batch_idx, 0, q), k.at(dyn.batch_idx, r, q)))
    k.forall('positions', (N,) + dd, lambda j, *l: k.eq(k.at(dyn.x, r, j, *l), k.at(one.x, 0, j, *l)))
    for n in S.aux: k.forall(n, (N,) + dd, lambda j, *l: k.eq(k.at(getattr(dyn, n), r, j, *l), k.at(getattr(one, n), 0, j, *l)))
    k.forall('consensus', k.shape(one.consensus)[1:], lambda *j: k.eq(k.at(dyn.consensus, p, *j), k.at(one.consensus, 0, *j)))
    k.forall('energies', (N,), lambda j: k.eq(k.at(dyn.energy, r, j), k.at(one.energy, 0, j)))
    k.check('evaluation count', k.ieq(k.at(dyn.num_f_eval, r), k.at(one.num_f_eval, 0)))
    if not modular:
        k.check('best energy', k.eq(k.at(dyn.best_energy, r), k.at(one.best_energy, 0)))
        k.forall('best particle', dd, lambda *l: k.eq(k.at(dyn.best_particle, r, *l), k.at(one.best_particle, 0, *l)))
        k.check('update', k.eq(k.at(dyn.update_diff, r), k.at(one.update_diff, 0)))

@contract('C10', grid(cls=['CBOMemory', 'PSO', 'CBO', 'PolarCBO', 'DriftConstrainedCBO', 'MirrorCBO', 'CBS'], nan=[False, True]))
def post_step(k, cls, nan):
    """the book-keeping after the inner step treats every run on its own"""
    D = k.mod('cbx.dynamics')
    M, N = k.dim('M', hi=4), k.dim('N', hi=4); dd = ddims(k)
    f = k.objective(1)
    st = {}
    for n, sh in dict(x=(M, N) + dd, y=(M, N) + dd, x_old=(M, N) + dd, y_old=(M, N) + dd, v=(M, N) + dd, energy=(M, N), best_energy=(M,), best_particle=(M,) + dd).items():
        st[n] = k.specials(n, sh) if nan and n == 'x' else k.array(n, sh)
    r = k.index(M)
    def mk(x0, state):
        dyn = getattr(D, cls)(f, f_dim='3D', x=x0, verbosity=0, check_f_dims=False, **({} if nan else dict(post_process=lambda d: None)))
        for n, v in state.items(): setattr(dyn, n, v)
        dyn.terminate(); dyn.post_step()
        return dyn
    a = mk(k.array('x0', (M, N) + dd), {n: k.snap(v) for n, v in st.items()})
    row = lambda A: k.build((1,) + k.shape(A)[1:], lambda i, *j: k.at(A, r, *j))
    b = mk(k.array('x1', (1, N) + dd), {n: row(v) for n, v in st.items()})
    k.forall('positions', (N,) + dd, lambda j, *l: k.eq(k.at(a.x, r, j, *l), k.at(b.x, 0, j, *l)))
    k.check('best energy', k.eq(k.at(a.best_energy, r), k.at(b.best_energy, 0)))
    k.forall('best particle', dd, lambda *l: k.eq(k.at(a.best_particle, r, *l), k.at(b.best_particle, 0, *l)))
    if not nan: k.check('update', k.eq(k.at(a.update_diff, r), k.at(b.update_diff, 0)))

@contract('C10', [dict(cls='PolarCBO', batch=b, noise='covariance', corr='no_correction') for b in (None, 'part')], modes='con')
def per_particle_covariance(k, **c):
    """the particle-wise covariance of the polarized dynamic is one of the run alone"""
    equals_the_separate_run(k, **c)
