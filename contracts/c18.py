import functools
from api import contract, grid
from common import *

def surface(k, kind, d):
    """sdf dictionary, gradient g(X, i.., l), constants"""
    if kind == 'sphere': return None, {}
    a = k.array('a', (d,)); off = k.real('offset')
    k.assume(k.lt(0, k.Sum((d,), lambda l: k.at(a, l) * k.at(a, l))))
    return dict(name='plane', a=a, b=off), dict(a=a, off=off)
def gradient(k, kind, d, C, X, *i):
    """unit normal of the surface through the point: grad of the signed distance"""
    if kind == 'sphere':
        n = k.sqrt(k.Sum((d,), lambda m: k.at(X, *i, m) * k.at(X, *i, m)))
        return lambda l: k.div(k.at(X, *i, l), n)
    n = k.sqrt(k.Sum((d,), lambda m: k.at(C['a'], m) * k.at(C['a'], m)))
    return lambda l: k.div(k.at(C['a'], l), n)

@contract('C18', grid(kind=['sphere', 'plane'], shape=['particles', 'point']))
def tangential_projection(k, kind, shape):
    H = k.mod('cbx.dynamics.hypersurfacecbo')
    d = k.dim('d', hi=4); b = (k.dim('M', hi=3), k.dim('N', hi=4)) if shape == 'particles' else ()
    spec, C = surface(k, kind, d)
    sdf = H.get_sdf(spec)
    x, z = k.array('x', b + (d,)), k.array('z', b + (d,))
    x0, z0 = k.snap(x), k.snap(z)
    if kind == 'sphere': k.assume_forall(b, lambda *i: k.lt(0, k.Sum((d,), lambda l: k.at(x0, *i, l) * k.at(x0, *i, l))))
    if k.sym and kind == 'sphere':          # the assumption is needed at an arbitrary particle
        pass
    r = sdf.proj_tangent_space(x, z)
    k.check_shape('shape', r, b + (d,))
    P = sdf.get_proj_matrix(x)
    k.check_shape('matrix shape', P, b + (d, d))
    pos = k.hyp(b, lambda *i: k.lt(0, k.Sum((d,), lambda l: k.at(x0, *i, l) * k.at(x0, *i, l)))) if kind == 'sphere' else lambda *i: None
    def orth(*i):
        pos(*i); g = gradient(k, kind, d, C, x0, *i)
        return k.eq(k.Sum((d,), lambda l: g(l) * k.at(r, *i, l)), 0)
    k.forall('orthogonal to the gradient', b, orth)
    def form(*i):
        pos(*i[:-1]); g = gradient(k, kind, d, C, x0, *i[:-1])
        gz = k.Sum((d,), lambda m: g(m) * k.at(z0, *i[:-1], m))
        return [('normal component removed', k.eq(k.at(r, *i), k.at(z0, *i) - g(i[-1]) * gz)),
                ('tangential vectors are unchanged', k.implies(k.eq(gz, 0) if k.sym else abs(gz) < 1e-15, lambda: k.eq(k.at(r, *i), k.at(z0, *i))))]
    k.forall('projection', b + (d,), form)
    def mat(*i):
        pos(*i[:-2]); g = gradient(k, kind, d, C, x0, *i[:-2])
        return k.eq(k.at(P, *i), k.ite(k.ieq(i[-2], i[-1]), 1, 0) - g(i[-2]) * g(i[-1]))
    k.forall('projection matrix', b + (d, d), mat)
    k.forall('arguments untouched', b + (d,), lambda *i: k.and_(k.eq(k.at(x, *i), k.at(x0, *i)), k.eq(k.at(z, *i), k.at(z0, *i))))
    if not k.sym:
        r2 = sdf.proj_tangent_space(x, r); k.forall('idempotent', b + (d,), lambda *i: k.eq(k.at(r2, *i), k.at(r, *i)))

@contract('C18', grid(kind=['sphere', 'plane'], shape=['particles', 'point']))
def surface_projection(k, kind, shape):
    """every point is mapped to the surface, along the normal; points of the surface stay"""
    k.mild = True
    H = k.mod('cbx.dynamics.hypersurfacecbo')
    d = k.dim('d', hi=4); b = (k.dim('M', hi=3), k.dim('N', hi=4)) if shape == 'particles' else ()
    spec, C = surface(k, kind, d)
    y = k.array('y', b + (d,), lo=-4., hi=4.); y0 = k.snap(y)
    r = H.get_sdf(spec).proj(y)
    sh = b + (d,)
    k.check_shape('shape', r, sh)
    n2 = lambda X, i: k.Sum((d,), lambda l: k.at(X, *i, l) * k.at(X, *i, l))
    if kind == 'sphere':
        k.forall('on the sphere', b, lambda *i: k.implies(k.lt(0, n2(y0, i)), lambda: k.eq(n2(r, i), 1)))
        k.forall('points on the sphere stay', sh, lambda *i: k.implies(k.eq(n2(y0, i[:-1]), 1) if k.sym else abs(n2(y0, i[:-1]) - 1) < 1e-12, lambda: k.eq(k.at(r, *i), k.at(y0, *i))))
        k.forall('along the ray', sh, lambda *i: k.implies(k.lt(0, n2(y0, i[:-1])), lambda: k.eq(k.at(r, *i) * k.sqrt(n2(y0, i[:-1])), k.at(y0, *i))))
    else:
        ay = lambda X, i: k.Sum((d,), lambda l: k.at(C['a'], l) * k.at(X, *i, l))
        k.forall('in the plane', b, lambda *i: k.eq(ay(r, i), C['off']))
        k.forall('along the normal', sh, lambda *i: k.eq((k.at(y0, *i) - k.at(r, *i)) * n2(C['a'], ()), (ay(y0, i[:-1]) - C['off']) * k.at(C['a'], i[-1])))
    k.forall('argument untouched', sh, lambda *i: k.eq(k.at(y, *i), k.at(y0, *i)))

def flat(k, A, p): return lambda i, j, a, c: k.at(A, i, j, a * p + c)
@contract('C18', grid(orient=['tall', 'square']))
def stiefel_tangential_projection(k, orient):
    H = k.mod('cbx.dynamics.hypersurfacecbo')
    M, N, n = k.dim('M', hi=2), k.dim('N', hi=3), k.dim('n', hi=4)
    p = n if orient == 'square' else k.dim('p', hi=3)
    if orient == 'tall': k.assume(k.le(p, n))
    X = k.orthonormal('X', (M, N), n, p)
    Z = k.array('Z', (M, N, n, p))
    sdf = H.get_sdf(dict(name='Stiefel', nk=(n, p)))
    x, z = X.reshape((M, N, n * p)), Z.reshape((M, N, n * p))
    r = sdf.proj_tangent_space(x, z)
    k.check_shape('shape', r, (M, N, n * p))
    R = flat(k, r, p)
    S = lambda i, j, e, c: k.Sum((n,), lambda q: k.at(Z, i, j, q, e) * k.at(X, i, j, q, c) + k.at(X, i, j, q, e) * k.at(Z, i, j, q, c))
    k.forall('formula', (M, N, n, p), lambda i, j, a, c: k.eq(R(i, j, a, c), k.at(Z, i, j, a, c) - k.Sum((p,), lambda e: k.at(X, i, j, a, e) * S(i, j, e, c)) / 2))
    k.forall('tangential', (M, N, p, p), lambda i, j, a, c: k.eq(k.Sum((n,), lambda q: k.at(X, i, j, q, a) * R(i, j, q, c) + R(i, j, q, a) * k.at(X, i, j, q, c)), 0))
    if k.sym:
        T = k.hyp((M, N, p, p), lambda i, j, e, c: k.eq(S(i, j, e, c), 0))
        ix = tuple(k.index(e) for e in (M, N, n, p)); i, j, a, c = ix
        def g(e): T(i, j, e, c); return k.at(X, i, j, a, e) * S(i, j, e, c)
        k.lemma_sum_eq('nothing is removed', (p,), g, lambda e: 0)
        k.check('tangential vectors are unchanged', k.eq(R(*ix), k.at(Z, *ix)))
    else:
        r2 = sdf.proj_tangent_space(x, r); k.forall('tangential vectors are unchanged', (M, N, n * p), lambda *i: k.eq(k.at(r2, *i), k.at(r, *i)))

@contract('C18', grid(orient=['tall', 'square']))
def stiefel_surface_projection(k, orient):
    H = k.mod('cbx.dynamics.hypersurfacecbo')
    M, N, n = k.dim('M', hi=2), k.dim('N', hi=3), k.dim('n', hi=4)
    p = n if orient == 'square' else k.dim('p', hi=3)
    if orient == 'tall': k.assume(k.le(p, n))
    y = k.array('y', (M, N, n * p)); y0 = k.snap(y)
    r = H.get_sdf(dict(name='Stiefel', nk=(n, p))).proj(y)
    k.check_shape('shape', r, (M, N, n * p))
    R = flat(k, r, p)
    k.forall('orthonormal columns', (M, N, p, p), lambda i, j, a, c: k.eq(k.Sum((n,), lambda q: R(i, j, q, a) * R(i, j, q, c)), k.ite(k.ieq(a, c), 1, 0)))
    Y = flat(k, y0, p)
    def pol(i, j, a, c): return k.eq(R(i, j, a, c), k.polar(n, p, lambda u, v: Y(i, j, u, v))(a, c))
    k.forall('polar factor', (M, N, n, p), pol)

CFG = [dict(kind=s, act=a, batch=b, noise=n) for s in ('sphere', 'plane') for a, b, n in
       [('full', None, 'isotropic'), ('partial', None, 'isotropic'), ('partial', None, 'anisotropic'), ('partial', 'part', 'isotropic'), ('full', 'part', 'anisotropic'), ('partial', 'concat', 'isotropic')]] + \
      [dict(kind='Stiefel', act=a, batch=b, noise=n) for a, b, n in [('full', None, 'isotropic'), ('partial', 'part', 'isotropic')]]

@contract('C18', CFG + [dict(c, part='surface') for c in CFG if c['kind'] != 'Stiefel'])
def step(k, kind, act, batch, noise, part='step'):
    """projection of x + P(x)(dt consensus + sigma noise) minus the curvature correction; the result lies on the surface"""
    k.mild = True
    if kind == 'Stiefel':
        n = k.dim('n', lo=1, hi=3); p = k.dim('p', hi=2); k.assume(k.le(p, n)); d = n * p; sdf = dict(name='Stiefel', nk=(n, p)); C = {}
    else:
        d = k.dim('d', hi=4); sdf, C = surface(k, kind, d)
    S = Ens(k, 'HyperSurfaceCBO', act, batch, noise=noise, sdf=sdf, dd=(d,))
    dyn = S.dyn
    if not k.sym:           # positions on the surface
        dyn.x = dyn.sdf.proj(dyn.x); S.x = k.snap(dyn.x)
    sm = lambda f: k.Sum((d,), f)
    if k.sym and part == 'surface':          # the projection is used through its contract (surface_projection)
        calls = []
        def proj_contract(y):
            y = k.snap(y); b = k.shape(y)[:-1]
            r = k.array('projected%d' % len(calls), k.shape(y))
            if kind == 'sphere': post = k.hyp(b, lambda *i: k.implies(k.lt(0, sm(lambda l: k.at(y, *i, l) * k.at(y, *i, l))), lambda: k.eq(sm(lambda l: k.at(r, *i, l) * k.at(r, *i, l)), 1)))
            else: post = k.hyp(b, lambda *i: k.eq(sm(lambda l: k.at(C['a'], l) * k.at(r, *i, l)), C['off']))
            calls.append((y, post)); return k.snap(r)
        dyn.sdf.proj = proj_contract
        S.step()
        if not calls: k.unsupported('the projection is not called')
        def surf(p_, q):
            y, post = calls[-1]; post(p_, q)
            i = S.A.run(p_); j = S.U(i, q); new = dyn.x
            if kind == 'plane': return k.eq(sm(lambda l: k.at(C['a'], l) * k.at(new, i, j, l)), C['off'])
            return k.implies(k.lt(0, sm(lambda l: k.at(y, p_, q, l) * k.at(y, p_, q, l))), lambda: k.eq(sm(lambda l: k.at(new, i, j, l) * k.at(new, i, j, l)), 1))
        k.forall('on the surface', (S.K, S.nu), surf)
        return
    S.step()
    X = S.x
    def target(p_, q, i, j, c=None):
        dr = lambda l: k.at(X, i, j, l) - S.c(i, (l,))
        xi = lambda l: S.noise(noise, p_, q, (l,), lambda m: dr(m[0]))
        move = lambda l: S.dt * S.c(i, (l,)) + S.sig * xi(l)
        n2 = sm(lambda l: dr(l) * dr(l))
        if not k.sym: move = functools.lru_cache(None)(move)
        if kind == 'Stiefel':
            x_ = lambda a, c: k.at(X, i, j, a * p + c)
            sym_ = lambda e, c: k.Sum((n,), lambda u: move(u * p + e) * x_(u, c) + x_(u, e) * move(u * p + c))
            tan = lambda a, c: move(a * p + c) - k.Sum((p,), lambda e: x_(a, e) * sym_(e, c)) / 2
            lap = (2 * n - p - 1) / 2
            return lambda a, c: x_(a, c) + tan(a, c) - S.dt * S.sig * S.sig / 2 * lap * n2 * x_(a, c)
        g = gradient(k, kind, d, C, X, i, j)
        gm = sm(lambda l: g(l) * move(l))
        x_ = lambda l: k.at(X, i, j, l)
        if noise == 'anisotropic':
            dx = sm(lambda l: dr(l) * x_(l))
            corr = lambda l: S.dt * S.sig * S.sig / 2 * (n2 + dr(l) * dr(l) - 2 * dx * dx) * x_(l)
        else:
            lap = k.div(d - 1, k.sqrt(sm(lambda l: x_(l) * x_(l)))) if kind == 'sphere' else 0
            corr = lambda l: S.dt * S.sig * S.sig / 2 * lap * n2 * g(l)
        return lambda l: x_(l) + move(l) - g(l) * gm - corr(l)
    if not k.sym: target = functools.lru_cache(None)(lambda *a, f=target: functools.lru_cache(None)(f(*a)))
    def proj(p_, q, i, j, l):
        y = target(p_, q, i, j)
        if kind == 'sphere': return k.div(y(l), k.sqrt(sm(lambda m: y(m) * y(m))))
        return y(l) - k.div(sm(lambda m: k.at(C['a'], m) * y(m)) - C['off'], sm(lambda m: k.at(C['a'], m) * k.at(C['a'], m))) * k.at(C['a'], l)
    new = dyn.x
    if kind == 'Stiefel':
        def f(p_, q, a, c):
            i = S.A.run(p_); j = S.U(i, q)
            return k.eq(k.at(new, i, j, a * p + c), k.polar(n, p, target(p_, q, i, j))(a, c))
        k.forall('position', (S.K, S.nu, n, p), f)
        def surf(p_, q, a, c):
            i = S.A.run(p_); j = S.U(i, q)
            return k.eq(k.Sum((n,), lambda m: k.at(new, i, j, m * p + a) * k.at(new, i, j, m * p + c)), k.ite(k.ieq(a, c), 1, 0))
        k.forall('on the surface', (S.K, S.nu, p, p), surf)
    else:
        S.upd('position', lambda p_, q, i, j, l: k.eq(k.at(new, i, j, *l), proj(p_, q, i, j, l[0])))
        def surf(p_, q):
            i = S.A.run(p_); j = S.U(i, q)
            if kind == 'plane': return k.eq(sm(lambda l: k.at(C['a'], l) * k.at(new, i, j, l)), C['off'])
            y = target(p_, q, i, j)
            return k.implies(k.lt(0, sm(lambda l: y(l) * y(l))), lambda: k.eq(sm(lambda l: k.at(new, i, j, l) * k.at(new, i, j, l)), 1))
        if not k.sym: k.forall('on the surface', (S.K, S.nu), surf)
    S.frame('others', new, X)

@contract('C18')
def selection(k):
    H = k.mod('cbx.dynamics.hypersurfacecbo')
    k.check('default', type(H.get_sdf(None)) is H.sphereDistance)
    k.check('sphere', type(H.get_sdf(dict(name='sphere'))) is H.sphereDistance)
    k.check('plane', type(H.get_sdf(dict(name='plane', a=k.array('a', (k.dim('d'),)), b=2.))) is H.planeDistance)
    k.check('Stiefel', type(H.get_sdf(dict(name='Stiefel', nk=(3, 2)))) is H.StiefelDistance)
