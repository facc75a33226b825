from api import contract, grid
from common import *

class Map:
    """an arbitrary mirror map: gradient and conjugate gradient are unknown functions of a particle"""
    def __init__(self, k, nd, pointwise=False):
        self.grad = k.vecmap(nd, 'Ggrad'); self.grad_conj = k.vecmap(nd, 'Gconj')
    def __call__(self, theta): raise NotImplementedError

CFG = [dict(act=a, batch=b, noise=n, corr=c, multi=m) for a, b, n, c, m in [
    ('full', None, 'anisotropic', 'no_correction', False), ('partial', None, 'isotropic', 'no_correction', False), ('partial', 'part', 'anisotropic', 'no_correction', False), ('full', 'part', 'isotropic', 'no_correction', False),
    ('full', 'full', 'anisotropic', 'no_correction', False), ('partial', 'full', 'constant', 'no_correction', False), ('partial', 'concat', 'constant', 'no_correction', False),
    ('partial', None, 'constant', 'heavi_side', False), ('partial', 'part', 'anisotropic', 'heavi_side_reg', False), ('full', None, 'anisotropic', 'no_correction', True), ('partial', 'part', 'isotropic', 'no_correction', True)]]

@contract('C16', CFG)
def mirror_step(k, act, batch, noise, corr, multi):
    """the consensus update is applied to the dual variables, positions are the images under the conjugate gradient"""
    G = Map(k, 2 if multi else 1)
    S = Ens(k, 'MirrorCBO', act, batch, multi, noise, corr, mirrormap=G)
    dyn = S.dyn
    Y = k.array('y', (S.M, S.N) + S.dd); dyn.y = k.snap(Y)
    dyn.t = k.real('t'); dyn.it = k.int('it')
    t0, it0 = dyn.t, dyn.it
    S.step()
    def upd(p, q, i, j, l):
        cf = S.corrfac(corr, S.F(i, j), S.f.atfn(S.dd, lambda *m: S.c(i, m))) if corr != 'no_correction' else 1
        dr = lambda m: cf * S.drift(i, j, m)
        return k.eq(k.at(dyn.y, i, j, *l), k.at(Y, i, j, *l) - S.lam * S.dt * dr(l) + S.sig * S.noise(noise, p, q, l, dr))
    S.upd('dual update', upd)
    S.upd('position', lambda p, q, i, j, l: k.eq(k.at(dyn.x, i, j, *l), G.grad_conj.at(dyn.y, i, j, *l)))
    S.frame('other dual variables', dyn.y, Y)
    S.frame('other positions', dyn.x, S.x)
    k.check('time', k.and_(k.eq(dyn.t, t0 + S.dt), k.eq(dyn.it, it0 + 1)))

@contract('C16', grid(multi=[False, True], way=['object', 'name', 'dict', 'default']))
def construction(k, multi, way):
    """dual variables start at the gradient of the initial positions"""
    G = Map(k, 2 if multi else 1)
    kw = dict(object=dict(mirrormap=G), name=dict(mirrormap='L2'), dict=dict(mirrormap=dict(name='L2', lamda=k.real('weight', pos=True, lo=.2, hi=3.))), default={})[way]
    S = Ens(k, 'MirrorCBO', 'full', None, multi, warm=0, **kw)
    dyn = S.dyn
    w = kw['mirrormap']['lamda'] if way == 'dict' else 1
    spec = (lambda i, j, *l: G.grad.at(S.x_init, i, j, *l)) if way == 'object' else (lambda i, j, *l: w * k.at(S.x_init, i, j, *l))
    k.check_shape('shape', dyn.y, (S.M, S.N) + S.dd)
    k.forall('dual variables', (S.M, S.N) + S.dd, lambda i, j, *l: k.eq(k.at(dyn.y, i, j, *l), spec(i, j, *l)))
    xi = k.snap(S.x_init)
    dyn.y[...] = 0.
    k.forall('dual variables do not share memory with the positions', (S.M, S.N) + S.dd, lambda i, j, *l: k.and_(k.eq(k.at(dyn.x, i, j, *l), k.at(S.x, i, j, *l)), k.eq(k.at(S.x_init, i, j, *l), k.at(xi, i, j, *l))))

@contract('C16', [dict(act=a, batch=b, noise=n, way=w) for a, b, n, w in [('full', None, 'anisotropic', 'default'), ('partial', None, 'isotropic', 'name'), ('partial', 'part', 'anisotropic', 'default'), ('full', 'full', 'anisotropic', 'dict'), ('partial', 'part', 'constant', 'none')]])
def quadratic_map_is_plain_cbo(k, act, batch, noise, way):
    """with the default map a step in the invariant y = x coincides with a step of plain consensus-based optimisation"""
    kw = dict(default={}, name=dict(mirrormap='L2'), dict=dict(mirrormap=dict(name='None')), none=dict(mirrormap='None'))[way]
    S = Ens(k, 'MirrorCBO', act, batch, False, noise, **kw)
    dyn = S.dyn
    dyn.y = k.snap(S.x)
    S.step(modular=True)
    def upd(p, q, i, j, l):
        dr = lambda m: S.drift(i, j, m)
        return [('position', k.eq(k.at(dyn.x, i, j, *l), k.at(S.x, i, j, *l) - S.lam * S.dt * dr(l) + S.sig * S.noise(noise, p, q, l, dr))),
                ('dual equals primal', k.eq(k.at(dyn.y, i, j, *l), k.at(dyn.x, i, j, *l)))]
    S.upd('step', upd)
    S.frame('others', dyn.x, S.x); S.frame('other duals', dyn.y, S.x)

@contract('C16')
def selection(k):
    """names, dictionaries and objects select the corresponding mirror map"""
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    for name, cls in [('ElasticNet', 'ElasticNet'), ('None', 'L2'), ('L2', 'L2'), ('ProjectionBall', 'ProjectionBall'), ('ProjectionHyperplane', 'ProjectionHyperplane'), ('ProjectionSphere', 'ProjectionSphere'),
                      ('ProjectionSquare', 'ProjectionSquare'), ('LogBarrierBox', 'LogBarrierBox'), ('Entropy', 'Entropy'), ('EntropySimplex', 'NegativeLogEntropySimplex')]:
        k.check('by name', type(Mm.get_mirror_map(name)) is getattr(Mm, cls))
        k.check('by dictionary', type(Mm.get_mirror_map({'name': name})) is getattr(Mm, cls))
    k.check('default', type(Mm.get_mirror_map(None)) is Mm.L2)
    k.check('parameters', Mm.get_mirror_map(dict(name='ProjectionBall', radius=3., center=.5)).radius == 3.)
    k.raises('unknown', lambda: Mm.get_mirror_map('no such map'), ValueError)
    G = Map(k, 1)
    k.check('object', Mm.get_mirror_map(G) is G)

@contract('C16', modes='con')
def real_maps(k):
    """several steps with the maps shipped with the package: positions of updated particles are the images of their duals"""
    import numpy as np
    name = k.choice(['ElasticNet', 'ProjectionBall', 'ProjectionSphere', 'ProjectionSquare', 'LogBarrierBox', 'Entropy', 'EntropySimplex', 'ProjectionHyperplane'])
    S = Ens(k, 'MirrorCBO', 'partial', k.choice([None, 'part', 'full', 'concat']), noise=k.choice(['anisotropic', 'isotropic']), mirrormap=name, warm=0)
    dyn = S.dyn
    x = np.clip(np.abs(S.x_init), .05, .95); x = x / x.sum(-1, keepdims=True) if name == 'EntropySimplex' else x
    if name != 'ElasticNet': dyn.x = x.copy(); dyn.y = dyn.mirrormap.grad(x.copy())
    else: dyn.x = k.snap(S.x_init); dyn.y = dyn.mirrormap.grad(dyn.x)
    for n in range(3):
        S.box[0] = k.mask('act%d' % n, S.M, 'some')
        y0, x0 = dyn.y.copy(), dyn.x.copy()
        dyn.terminate(); dyn.step(); S.nodup()
        g = dyn.mirrormap.grad_conj(dyn.y.copy())
        for i in range(int(S.M)):
            for j in range(int(S.N)):
                up = bool(S.box[0][i]) and (not S.batched or not S.partial or j in dyn.batch_idx[i])
                if up: k.check('image', np.allclose(dyn.x[i, j], g[i, j]))
                else: k.check('untouched', np.array_equal(dyn.x[i, j], x0[i, j]) and np.array_equal(dyn.y[i, j], y0[i, j]))
