from api import contract, grid
from common import *

SHAPES = ['particles', 'matrix', 'single']
def pts(k, name, shape, d=None, **kw):
    """points of various shapes; returns the array, its batch extents and the last extent"""
    M, N = k.dim('M', hi=3), k.dim('N', hi=4)
    d = k.dim('d', hi=4) if d is None else d
    b = dict(particles=(M, N), matrix=(M, N, k.dim('e', hi=2)), single=(N,))[shape]
    return k.array(name, b + (d,), **kw), b, d

def inverse(k, Mp, x, b, d):
    x0 = k.snap(x)
    r = Mp.grad_conj(Mp.grad(x))
    k.check_shape('shape', r, b + (d,))
    k.forall('conjugate gradient undoes the gradient', b + (d,), lambda *i: k.eq(k.at(r, *i), k.at(x0, *i)))
    k.forall('argument untouched', b + (d,), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))

@contract('C17', grid(shape=SHAPES, weight=[False, True]))
def quadratic(k, shape, weight):
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    x, b, d = pts(k, 'x', shape)
    lam = k.real('weight', pos=True, lo=.1, hi=4.) if weight else 1
    Mp = Mm.L2(lamda=lam) if weight else Mm.L2()
    g = Mp.grad(x)
    k.forall('gradient', b + (d,), lambda *i: k.eq(k.at(g, *i), lam * k.at(x, *i)))
    inverse(k, Mp, x, b, d)

@contract('C17', grid(shape=SHAPES))
def log_barrier(k, shape):
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    x, b, d = pts(k, 'x', shape, lo=-.999, hi=.999)
    sh = b + (d,)
    k.assume_forall(sh, lambda *i: k.and_(k.lt(-1, k.at(x, *i)), k.lt(k.at(x, *i), 1)))
    Mp = Mm.LogBarrierBox()
    if not k.sym: x = x * k.choice([1., 1e-3, 0.])
    g = Mp.grad(x)
    k.forall('gradient', sh, lambda *i: k.eq(k.at(g, *i), k.div(1, 1 - k.at(x, *i)) - k.div(1, 1 + k.at(x, *i))))
    if k.sym:
        i = tuple(k.index(e) for e in sh)
        t = k.at(x, *i); y = k.at(g, *i)
        s = k.sqrt(1 + y * y)
        k.lemma('domain', k.lt(0, 1 - t * t))
        k.lemma('gradient, one fraction', k.eq(y * (1 - t * t), 2 * t))
        k.lemma('square', k.eq((1 + y * y) * (1 - t * t) * (1 - t * t), (1 + t * t) * (1 + t * t)))
        k.lemma('root', k.eq(s * (1 - t * t), 1 + t * t))
        r = Mp.grad_conj(g)
        k.check('conjugate gradient undoes the gradient, cleared', k.eq(k.at(r, *i) * (1 + s), y))
        k.check('scaled', k.eq((1 + s) * (1 - t * t), 2))
        k.check('conjugate gradient undoes the gradient', k.eq(k.at(r, *i), t))
    else: inverse(k, Mp, x, b, d)

@contract('C17', grid(shape=SHAPES))
def log_barrier_everywhere(k, shape):
    """the conjugate gradient is defined at every dual vector (also zero) and lies in the box"""
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    y, b, d = pts(k, 'y', shape)
    if not k.sym: y = y * k.array('scale', (d,), lo=0., hi=1.) ** 4 * k.choice([1., 0., 1e3])
    r = Mm.LogBarrierBox().grad_conj(y)
    sh = b + (d,)
    k.check_shape('shape', r, sh)
    k.forall('in the box', sh, lambda *i: k.and_(k.lt(-1, k.at(r, *i)), k.lt(k.at(r, *i), 1)))
    same = k.eq if k.sym else k.ieq
    k.forall('zero', sh, lambda *i: k.iff(same(k.at(y, *i), 0), same(k.at(r, *i), 0)))

@contract('C17', grid(shape=SHAPES, own=[False, True]))
def elastic_net(k, shape, own):
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    x, b, d = pts(k, 'x', shape)
    if own:
        de, la = k.real('delta', pos=True, lo=.1, hi=3.), k.real('lamda', nonneg=True, lo=0., hi=3.)
        Mp = Mm.ElasticNet(delta=de, lamda=la)
    else: Mp = Mm.ElasticNet(); de = la = 1
    if not k.sym and k.rng.random() < .3: x[..., 0] = 0.
    g = Mp.grad(x)
    k.forall('gradient', b + (d,), lambda *i: k.eq(k.at(g, *i), k.div(k.at(x, *i), de) + la * k.sign(k.at(x, *i))))
    inverse(k, Mp, x, b, d)

@contract('C17', grid(shape=SHAPES))
def nonsmooth_barrier(k, shape):
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    x, b, d = pts(k, 'x', shape, lo=-.999, hi=.999)
    sh = b + (d,)
    k.assume_forall(sh, lambda *i: k.and_(k.lt(-1, k.at(x, *i)), k.lt(k.at(x, *i), 1)))
    if not k.sym: x = x * k.choice([1., 1e-3, 0.])
    Mp = Mm.NonsmoothBarrier()
    x0 = k.snap(x); g = Mp.grad(x)
    a = lambda *i: k.abs(k.at(x0, *i))
    k.forall('gradient', sh, lambda *i: k.eq(k.at(g, *i) * (1 - a(*i)) * (1 - a(*i)), k.sign(k.at(x0, *i))))
    if k.sym:
        i = tuple(k.index(e) for e in sh)
        t, y = k.at(x0, *i), k.at(g, *i)
        q = 1 - k.abs(t)
        r = Mp.grad_conj(g)
        k.lemma('domain', k.lt(0, q))
        k.lemma('modulus', k.implies(k.not_(k.eq(t, 0)), lambda: k.eq(k.abs(y) * q * q, 1)))
        k.lemma('inverse modulus', k.implies(k.not_(k.eq(t, 0)), lambda: k.eq(k.div(1, k.abs(y)), q * q)))
        k.lemma('root', k.implies(k.not_(k.eq(t, 0)), lambda: k.eq(k.sqrt(k.div(1, k.abs(y))), q)))
        k.lemma('sign', k.eq(k.sign(y), k.sign(t)))
        k.check('conjugate gradient undoes the gradient', k.eq(k.at(r, *i), t))
    else: inverse(k, Mp, x, b, d)

@contract('C17', grid(which=['any', 'ball', 'square'], act=['full', 'partial']))
def post_processing(k, which, act):
    """turned into a post-processing step, a map replaces the positions by their images and changes nothing else"""
    Mm = k.mod('cbx.dynamics.mirrorcbo'); G = k.vecmap(1)
    class Custom(Mm.MirrorMap):
        def grad_conj(self, y): return G(y)
    cls, kw = dict(any=(Custom, {}), ball=(Mm.ProjectionBall, dict(radius=k.real('radius', pos=True))), square=(Mm.ProjectionSquare, dict(r=k.real('r', pos=True))))[which]
    S = Ens(k, 'CBO', act, None, noise='anisotropic', post_process=Mm.MirrorMaptoPostProcessProx(cls)(**kw))
    sh = (S.M, S.N) + S.dd
    dyn = S.dyn; want = cls(**kw).grad_conj(k.snap(dyn.x)); old = {n: v for n, v in vars(dyn).items() if n != 'x'}
    dyn.post_process(dyn)
    k.check_shape('shape', dyn.x, sh)
    k.forall('images', sh, lambda *i: k.eq(k.at(dyn.x, *i), k.at(want, *i)))
    k.check('nothing else', all(getattr(dyn, n) is v for n, v in old.items()))

@contract('C17', grid(shape=SHAPES))
def entropy(k, shape):
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    x, b, d = pts(k, 'x', shape, pos=True, lo=1e-6, hi=4.)
    k.assume_forall(b + (d,), lambda *i: k.le(k.mod('numpy').finfo(float).tiny, k.at(x, *i)))
    inverse(k, Mm.Entropy(), x, b, d)

@contract('C17', grid(shape=SHAPES))
def simplex(k, shape):
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    x, b, d = pts(k, 'x', shape, pos=True, lo=1e-6, hi=4.)
    if not k.sym: x = x / x.sum(-1, keepdims=True)
    k.assume_forall(b + (d,), lambda *i: k.le(1e-32, k.at(x, *i)))
    Mp = Mm.NegativeLogEntropySimplex()
    if not k.sym: return inverse(k, Mp, x, b, d)
    r = Mp.grad_conj(Mp.grad(x))
    k.check_shape('shape', r, b + (d,))
    cut = lambda *i: k.max(k.at(x, *i), 1e-32)
    k.forall('normalised', b + (d,), lambda *i: k.eq(k.at(r, *i), k.div(cut(*i), k.Sum((d,), lambda l: cut(*i[:-1], l)))))
    k.assume_forall(b, lambda *i: k.eq(k.Sum((d,), lambda l: k.at(x, *i, l)), 1))
    j = tuple(k.index(e) for e in b + (d,))
    k.lemma_sum_eq('away from the boundary', (d,), lambda l: cut(*j[:-1], l), lambda l: k.at(x, *j[:-1], l))
    k.lemma('on the simplex', k.implies(k.eq(k.Sum((d,), lambda l: k.at(x, *j[:-1], l)), 1), k.eq(k.at(r, *j), k.at(x, *j))))

@contract('C17', grid(shape=SHAPES))
def simplex_image(k, shape):
    """every dual vector is mapped into the simplex"""
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    y, b, d = pts(k, 'y', shape)
    if not k.sym: y = y * k.choice([1., 1e3, 1e-3])
    r = Mm.NegativeLogEntropySimplex().grad_conj(y)
    k.check_shape('shape', r, b + (d,))
    k.forall('sum', b, lambda *i: k.eq(k.Sum((d,), lambda l: k.at(r, *i, l)), 1))
    k.forall('nonnegative', b + (d,), lambda *i: k.le(0, k.at(r, *i)))

@contract('C17', grid(shape=SHAPES, own=['default', 'radius', 'scalar centre', 'centre']))
def ball(k, shape, own):
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    y, b, d = pts(k, 'y', shape, lo=-4., hi=4.)
    kw = {}; R = 1; c = lambda *i: 0
    if own != 'default': R = k.real('radius', pos=True, lo=.2, hi=3.); kw['radius'] = R
    if own == 'scalar centre': cc = k.real('centre'); kw['center'] = cc; c = lambda *i: cc
    if own == 'centre': ca = k.array('centre', (d,)); kw['center'] = ca; c = lambda *i: k.at(ca, i[-1])
    Mp = Mm.ProjectionBall(**kw)
    y0 = k.snap(y)
    r = Mp.grad_conj(y)
    sh = b + (d,)
    k.check_shape('shape', r, sh)
    n2 = lambda A, i: k.Sum((d,), lambda l: (k.at(A, *i, l) - c(*i, l)) * (k.at(A, *i, l) - c(*i, l)))
    if k.sym:
        i = tuple(k.index(e) for e in b)
        k.lemma_sum('squares', (d,), lambda l: (k.at(y0, *i, l) - c(*i, l)) * (k.at(y0, *i, l) - c(*i, l)))
        k.check('in the ball', k.le(n2(r, i), R * R))
    else: k.forall('in the ball', b, lambda *i: n2(r, i) <= R * R * (1 + 1e-9))
    k.forall('points in the ball stay', sh, lambda *i: k.implies(k.le(k.sqrt(n2(y0, i[:-1])), R), k.eq(k.at(r, *i), k.at(y0, *i))))
    k.forall('along the ray', b + (d, d), lambda *i: k.eq((k.at(r, *i[:-1]) - c(*i[:-1])) * (k.at(y0, *i[:-2], i[-1]) - c(*i[:-2], i[-1])), (k.at(r, *i[:-2], i[-1]) - c(*i[:-2], i[-1])) * (k.at(y0, *i[:-1]) - c(*i[:-1]))))
    g = Mp.grad(y); k.forall('gradient is the identity', sh, lambda *i: k.eq(k.at(g, *i), k.at(y0, *i)))

@contract('C17', grid(shape=SHAPES, own=['default', 'normal', 'offset']))
def hyperplane(k, shape, own):
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    y, b, d = pts(k, 'y', shape, lo=-4., hi=4.)
    kw = {}; off = 0; a = lambda l: 1
    if own == 'normal': A = k.array('a', (d,)); a = lambda l: k.at(A, l); kw['a'] = A
    if own != 'default': off = k.real('b'); kw['b'] = off
    y0 = k.snap(y)
    r = Mm.ProjectionHyperplane(**kw).grad_conj(y)
    sh = b + (d,)
    k.check_shape('shape', r, sh)
    a2 = k.Sum((d,), lambda l: a(l) * a(l))
    if k.sym and own == 'normal': k.assume(k.lt(0, a2))
    ay = lambda A, i: k.Sum((d,), lambda l: a(l) * k.at(A, *i, l))
    k.forall('in the hyperplane', b, lambda *i: k.eq(ay(r, i), off))
    k.forall('points in the hyperplane stay', sh, lambda *i: k.implies(k.eq(ay(y0, i[:-1]), off) if k.sym else abs(ay(y0, i[:-1]) - off) < 1e-12, k.eq(k.at(r, *i), k.at(y0, *i))))
    k.forall('moved along the normal', sh, lambda *i: k.eq((k.at(y0, *i) - k.at(r, *i)) * a2, (ay(y0, i[:-1]) - off) * a(i[-1])))
    if not k.sym:
        r2 = Mm.ProjectionHyperplane(**kw).grad_conj(k.snap(r)); k.forall('idempotent', sh, lambda *i: k.eq(k.at(r2, *i), k.at(r, *i)))

@contract('C17', grid(shape=SHAPES, own=[False, True]))
def sphere(k, shape, own):
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    y, b, d = pts(k, 'y', shape, lo=-4., hi=4.)
    R = k.real('r', pos=True, lo=.2, hi=3.) if own else 1
    y0 = k.snap(y)
    r = (Mm.ProjectionSphere(r=R) if own else Mm.ProjectionSphere()).grad_conj(y)
    sh = b + (d,)
    k.check_shape('shape', r, sh)
    n2 = lambda A, i: k.Sum((d,), lambda l: k.at(A, *i, l) * k.at(A, *i, l))
    k.forall('on the sphere', b, lambda *i: k.implies(k.lt(0, n2(y0, i)), lambda: k.eq(n2(r, i), R * R)))
    k.forall('points on the sphere stay', sh, lambda *i: k.implies(k.eq(k.sqrt(n2(y0, i[:-1])), R), k.eq(k.at(r, *i), k.at(y0, *i))))
    if not k.sym:
        r2 = (Mm.ProjectionSphere(r=R) if own else Mm.ProjectionSphere()).grad_conj(k.snap(r)); k.forall('idempotent', sh, lambda *i: k.eq(k.at(r2, *i), k.at(r, *i)))

@contract('C17', grid(shape=SHAPES, own=[False, True]))
def square(k, shape, own):
    """the boundary of the square: the largest coordinate has modulus r"""
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    y, b, d = pts(k, 'y', shape, lo=-3., hi=3.)
    R = k.real('r', pos=True, lo=.2, hi=2.) if own else 1
    if not k.sym and k.rng.random() < .3: y = y * k.choice([0., .05])
    y0 = k.snap(y)
    r = (Mm.ProjectionSquare(r=R) if own else Mm.ProjectionSquare()).grad_conj(y)
    sh = b + (d,)
    k.check_shape('shape', r, sh)
    k.forall('in the square', sh, lambda *i: k.le(k.abs(k.at(r, *i)), R))
    k.forall('on its boundary', b, lambda *i: k.eq(k.Max(d, lambda l: k.abs(k.at(r, *i, l))), R))
    k.forall('points on the boundary stay', sh, lambda *i: k.implies(k.eq(k.Max(d, lambda l: k.abs(k.at(y0, *i[:-1], l))), R), k.eq(k.at(r, *i), k.at(y0, *i))))
    k.forall('argument untouched', sh, lambda *i: k.eq(k.at(y, *i), k.at(y0, *i)))

@contract('C17', grid(shape=['particles', 'matrix'], orient=['tall', 'square']))
def stiefel_image(k, shape, orient):
    """the projection has orthonormal columns"""
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    M, N = k.dim('M', hi=3), k.dim('N', hi=4)
    n = k.dim('n', hi=4)
    p = n if orient == 'square' else k.dim('p', hi=3)
    if orient == 'tall': k.assume(k.le(p, n))
    y = k.array('y', (M, N, n, p)) if shape == 'matrix' else k.array('y', (M, N, n * p))
    y0 = k.snap(y)
    r = Mm.ProjectionStiefel(nk=(n, p)).grad_conj(y)
    k.check_shape('shape', r, k.shape(y0))
    R = (lambda i, j, a, c: k.at(r, i, j, a, c)) if shape == 'matrix' else (lambda i, j, a, c: k.at(r, i, j, a * p + c))
    k.forall('orthonormal columns', (M, N, p, p), lambda i, j, a, c: k.eq(k.Sum((n,), lambda m: R(i, j, m, a) * R(i, j, m, c)), k.ite(k.ieq(a, c), 1, 0)))

@contract('C17', grid(shape=['particles', 'matrix']), modes='con')
def stiefel_fixed_points(k, shape):
    """points of the manifold stay; the image is the closest point (the residual is symmetric and positive semidefinite in the polar sense)"""
    import numpy as np
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    M, N, n = int(k.dim('M')), int(k.dim('N')), int(k.dim('n', hi=4)); p = int(k.rng.integers(1, n + 1))
    y = k.array('y', (M, N, n, p)); Q = np.linalg.qr(y)[0]
    sh = (M, N, n, p) if shape == 'matrix' else (M, N, n * p)
    Mp = Mm.ProjectionStiefel(nk=(n, p))
    k.check('stay', np.allclose(Mp.grad_conj(Q.reshape(sh)), Q.reshape(sh)))
    r = Mp.grad_conj(y.reshape(sh)).reshape(M, N, n, p)
    H = np.moveaxis(r, -1, -2) @ y
    k.check('polar factor', np.allclose(H, np.moveaxis(H, -1, -2)) and np.linalg.eigvalsh(H).min() > -1e-9)

@contract('C17', grid(name=['ball', 'hyperplane', 'sphere', 'square', 'l2', 'box', 'elastic', 'entropy', 'simplex']))
def per_particle(k, name):
    """results are computed per particle: the image of a particle does not depend on the other ones"""
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    Mp = dict(ball=Mm.ProjectionBall, hyperplane=Mm.ProjectionHyperplane, sphere=Mm.ProjectionSphere, square=Mm.ProjectionSquare, l2=Mm.L2, box=Mm.LogBarrierBox, elastic=Mm.ElasticNet, entropy=Mm.Entropy, simplex=Mm.NegativeLogEntropySimplex)[name]()
    M, N, d = k.dim('M', hi=3), k.dim('N', hi=4), k.dim('d', hi=4)
    y, z = k.array('y', (M, N, d)), k.array('z', (M, N, d))
    i, j = k.index(M), k.index(N)
    for l in (range(int(d)) if not k.sym else ()): z[i, j, l] = y[i, j, l]
    if k.sym: z = k.build((M, N, d), lambda a, b, l: k.ite(k.and_(k.ieq(a, i), k.ieq(b, j)), k.at(y, a, b, l), k.at(z, a, b, l)))
    r, s = Mp.grad_conj(y), Mp.grad_conj(z)
    k.forall('same image', (d,), lambda l: k.eq(k.at(r, i, j, l), k.at(s, i, j, l)))

@contract('C17', grid(which=['quadratic', 'weighted quadratic', 'log barrier', 'elastic net', 'entropy', 'log barrier step', 'elastic net step'], shape=SHAPES))
def potential(k, which, shape):
    """the gradient belongs to the potential: its linearisation lies below it (above it for the concave entropy)"""
    Mm = k.mod('cbx.dynamics.mirrorcbo')
    lo, hi = {'log barrier': (-.99, .99), 'entropy': (1e-3, 3.)}.get(which.replace(' step', ''), (-3., 3.))
    d = k.dim('d', hi=4)
    x, b, d = pts(k, 'x', shape, d, lo=lo, hi=hi); y = k.array('y', b + (d,), lo=lo, hi=hi)
    if which.endswith('step'): y = x + .001 * (y - x)
    sh = b + (d,)
    dom = lambda v: k.and_(k.lt(-1, v), k.lt(v, 1)) if 'barrier' in which else k.lt(0, v) if which == 'entropy' else True
    if 'barrier' in which or which == 'entropy':
        for a in (x, y): k.assume_forall(sh, lambda *i, a=a: dom(k.at(a, *i)))
    if which == 'entropy': k.assume_forall(sh, lambda *i: k.le(k.mod('numpy').finfo(float).tiny, k.at(x, *i)))
    de, la = k.real('delta', pos=True, lo=.1, hi=3.), k.real('lamda', pos=True, lo=.1, hi=3.)
    Mp = {'q': Mm.L2, 'w': lambda: Mm.L2(lamda=la), 'l': Mm.LogBarrierBox, 'e': lambda: Mm.ElasticNet(delta=de, lamda=la)}['e' if 'elastic' in which else which[0]]() if which != 'entropy' else Mm.Entropy()
    x0, y0 = k.snap(x), k.snap(y)
    D = Mp.Bregman_distance(y, x)
    k.check_shape('shape', D, b)
    sg = -1 if which == 'entropy' else 1
    if not k.sym:
        k.forall('sign', b, lambda *i: sg * k.at(D, *i) >= -1e-9)
        D0 = Mp.Bregman_distance(x0, x0.copy())
        k.forall('equal points', b, lambda *i: abs(k.at(D0, *i)) <= 1e-9)
        k.forall('apart', b, lambda *i: sg * k.at(D, *i) > 0 or max(abs(x0[i] - y0[i])) < 1e-4)
        return
    i = tuple(k.index(e) for e in b)
    X = lambda l: k.at(x0, *i, l); Y = lambda l: k.at(y0, *i, l)
    def term(l):
        u, v = Y(l), X(l)
        if which == 'quadratic': return k.div((u - v) * (u - v), 2)
        if which == 'weighted quadratic': return la * k.div((u - v) * (u - v), 2)
        if 'elastic' in which: return k.div((u - v) * (u - v), 2 * de) + la * (k.abs(u) - k.abs(v) - k.sign(v) * (u - v))
        if which == 'entropy': return u * (k.log(u) - k.log(v)) - (u - v)
        return k.log(1 - v) + k.log(1 + v) - k.log(1 - u) - k.log(1 + u) - (k.div(1, 1 - v) - k.div(1, 1 + v)) * (u - v)
    def logs(m):
        u, v = Y(m), X(m)
        if which == 'entropy': k.log_axiom(v, u); k.lemma('quotient', k.eq(u * (k.div(v, u) - 1), v - u))
        elif 'barrier' in which: k.log_axiom(1 - u, 1 - v); k.log_axiom(1 + u, 1 + v)
    k.lemma_sum('nonnegative terms', (d,), term, logs)
    if which == 'entropy':
        g = Mp.grad(x0)
        k.lemma_sum_eq('gradient terms', (d,), lambda l: k.at(g, *i, l) * (Y(l) - X(l)), lambda l: (-k.log(X(l)) - 1) * (Y(l) - X(l)))
    k.lemma('Bregman distance', k.eq(sg * k.at(D, *i), k.Sum((d,), term)))
    k.check('sign', k.le(0, sg * k.at(D, *i)))
