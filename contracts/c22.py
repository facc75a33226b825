from api import contract, grid
from common import *

class P: pass
def ssum(k, d, f): return k.Sum((d,), f)
def sq(v): return v * v

# name -> (parameters, formula of the coordinates X(l), dimension 2 or 'd')
def mk_none(k, d): return {}, P()
def params(names, **sp):
    def mk(k, d):
        p = P(); kw = {}
        for n in names.split():
            v = k.real('p_' + n, **sp.get(n, {})); setattr(p, n, v); kw[n] = v
        return kw, p
    return mk
def vecs(names):
    def mk(k, d):
        p = P(); kw = {}
        for n in names.split():
            v = k.array('p_' + n, (2,), lo=-2., hi=2.); setattr(p, n, k.snap(v)); kw[n] = v
        return kw, p
    return mk
def rast(k, X, d, A, b): return A * d + ssum(k, d, lambda l: sq(X(l) - b) - A * k.cos(2 * k.pi * (X(l) - b)))
def ack(k, X, d, A, b, c): return -A * k.exp(-b * k.sqrt(k.div(1, d) * ssum(k, d, lambda l: sq(X(l))))) - k.exp(k.div(1, d) * ssum(k, d, lambda l: k.cos(c * X(l)))) + A + k.exp(1)
def nrm(k, X, d): return k.sqrt(ssum(k, d, lambda l: sq(X(l))))
def rast_b(k, d):
    b = k.array('p_b', (d,)); p = P(); p.c, p.A = k.real('p_c'), k.real('p_A'); p.bv = b
    return dict(b=b, c=p.c, A=p.A), p
def mean_of(X): return lambda l: X(l)
F = {
 'three_hump_camel': (mk_none, lambda k, X, d, p: 2 * X(0)**2 - 1.05 * X(0)**4 + (1/6) * X(0)**6 + X(0) * X(1) + X(1)**2, 2),
 'McCormick': (mk_none, lambda k, X, d, p: k.sin(X(0) + X(1)) + sq(X(0) - X(1)) - 1.5 * X(0) + 2.5 * X(1) + 1, 2),
 'Rosenbrock': (params('a b'), lambda k, X, d, p: sq(p.a - X(0)) + p.b * sq(X(1) - X(0)**2), 2),
 'Himmelblau': (params('factor'), lambda k, X, d, p: sq(sq(p.factor * X(0)) + p.factor * X(1) - 11) + sq(p.factor * X(0) + sq(p.factor * X(1)) - 7), 2),
 'Rastrigin': (params('b c A'), lambda k, X, d, p: rast(k, X, d, p.A, p.b) + p.c, 'd'),
 'Rastrigin:array': (rast_b, lambda k, X, d, p: p.A * d + ssum(k, d, lambda l: sq(X(l) - k.at(p.bv, l)) - p.A * k.cos(2 * k.pi * (X(l) - k.at(p.bv, l)))) + p.c, 'd'),
 'Ackley': (params('A b c minimum'), lambda k, X, d, p: ack(k, lambda l: X(l) - p.minimum, d, p.A, p.b, p.c), 'd'),
 'accelerated_sinus': (params('a'), lambda k, X, d, p: k.sin(k.div(p.a * nrm(k, X, d), 1 + ssum(k, d, lambda l: sq(X(l))))) + 1, 'd'),
 'nd_sinus': (params('a'), lambda k, X, d, p: (k.sin(k.div(0.3 * 0.3 * ssum(k, d, lambda l: sq(X(l))), d)) + 1) * ((0.3 * X(0))**4 - (0.3 * X(0))**2 + 1), 'd'),
 'p_4th_order': (mk_none, lambda k, X, d, p: ssum(k, d, lambda l: X(l)**4) - ssum(k, d, lambda l: sq(X(l))) + 1, 'd'),
 'Quadratic': (params('alpha'), lambda k, X, d, p: ssum(k, d, lambda l: sq(p.alpha * X(l))), 'd'),
 'Banana': (params('m sigma sigma_prior', sigma=dict(pos=True), sigma_prior=dict(pos=True)),
            lambda k, X, d, p: k.div(0.5, sq(p.sigma)) * sq(sq(X(1) - 1) - (X(0) - 2.5) - 1 - p.m) + k.div(0.5, sq(p.sigma_prior)) * ssum(k, d, lambda l: sq(X(l))), 2),
 'Bimodal': (mk_none, lambda k, X, d, p: -k.log(k.exp(-(sq(X(0) - 1.) + k.div(sq(X(1) - 1.5), 0.2))) + 0.5 * k.exp(-k.div(sq(X(0) + 1.2), 8) - k.div(sq(X(1) + 0.7), 0.5))), 2),
 'Unimodal': (mk_none, lambda k, X, d, p: -k.log(0.5 * k.exp(-k.div(sq(X(0) + 1.2), 8) - k.div(sq(X(1) + 0.7), 0.5))), 2),
 'Bimodal:given': (vecs('a b'), lambda k, X, d, p: -k.log(k.exp(-(sq(X(0) - k.at(p.a, 0)) + k.div(sq(X(1) - k.at(p.a, 1)), 0.2))) + 0.5 * k.exp(-k.div(sq(X(0) - k.at(p.b, 0)), 8) - k.div(sq(X(1) - k.at(p.b, 1)), 0.5))), 2),
 'Unimodal:given': (vecs('a'), lambda k, X, d, p: -k.log(0.5 * k.exp(-k.div(sq(X(0) - k.at(p.a, 0)), 8) - k.div(sq(X(1) - k.at(p.a, 1)), 0.5))), 2),
 'Bukin6': (mk_none, lambda k, X, d, p: 100 * k.sqrt(k.abs(X(1) - 0.01 * X(0)**2)) + 0.01 * k.abs(X(0) + 10), 2),
 'cross_in_tray': (mk_none, lambda k, X, d, p: -0.0001 * k.pow(k.abs(k.sin(X(0)) * k.sin(X(1)) * k.exp(k.abs(100 - k.div(k.sqrt(X(0)**2 + X(1)**2), k.pi)))) + 1, 0.1), 2),
 'Easom': (mk_none, lambda k, X, d, p: -k.cos(X(0)) * k.cos(X(1)) * k.exp(-(sq(X(0) - k.pi) + sq(X(1) - k.pi))), 2),
 'drop_wave': (mk_none, lambda k, X, d, p: -(1 + k.cos(12 * k.sqrt(X(0)**2 + X(1)**2))) * k.exp(-k.div(X(0)**2 + X(1)**2, 2 * (1 + 0.001 * (X(0)**2 + X(1)**2)))), 2),
 'Holder_table': (params('factor shift'), lambda k, X, d, p: (lambda Y: -k.abs(k.sin(Y(0)) * k.cos(Y(1)) * k.exp(k.abs(1 - k.div(k.sqrt(Y(0)**2 + Y(1)**2), k.pi)))))(lambda l: (X(l) - p.shift) * p.factor), 2),
 'eggholder': (mk_none, lambda k, X, d, p: -(X(1) + 47) * k.sin(k.sqrt(k.abs(X(1) + k.div(X(0), 2) + 47))) - X(0) * k.sin(k.sqrt(k.abs(X(0) - X(1) - 47))), 2),
}
SHAPES = ['ensemble', 'single run', 'single particle', 'list']
def pts(k, shape, d):
    M, N = k.dim('M', hi=4), k.dim('N', hi=5)
    b = {'ensemble': (M, N), 'single run': (1, N), 'single particle': (M, 1), 'list': (N,)}[shape]
    x = k.array('x', b + (d,), lo=-3., hi=3.)
    if not k.sym and k.choice([False, False, True]):                  # points on the axes and on the integer grid
        x[k.rng.random(x.shape) < .3] = 0.; m = k.rng.random(x.shape) < .2; x[m] = x[m].round(); k._in('x', x.copy())
    return x, b
def check(k, f, x, b, d, spec):
    x0 = k.snap(x)
    v = f(x)
    k.check_shape('shape', v, b)
    k.forall('value', b, lambda *i: k.eq(k.at(v, *i), spec(lambda l: k.at(x0, *i, l))))
    k.forall('argument untouched', b + (d,), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))
def dimension(k, dm):
    if dm == 2: return 2
    return k.dim('d', hi=5)

@contract('C22', grid(name=list(F), shape=SHAPES))
def formula(k, name, shape):
    mk, spec, dm = F[name]
    d = dimension(k, dm)
    x, b = pts(k, shape, d)
    kw, p = mk(k, d)
    f = getattr(k.mod('cbx.objectives'), name.split(':')[0])(**kw)
    check(k, f, x, b, d, lambda X: spec(k, X, d, p))

@contract('C22', grid(name=['Rastrigin_multimodal', 'Ackley_multimodal'], n=[1, 2, 3], wide=[False, True], shape=['ensemble', 'list']))
def products(k, name, n, wide, shape):
    """products of scaled and shifted functions"""
    d = k.dim('d', hi=4); x, b = pts(k, shape, d)
    al = [k.real('al%d' % t) for t in range(n)]
    z = k.array('z', (n, d if wide else 1))
    V = (lambda Y: rast(k, Y, d, 10., 0)) if name[0] == 'R' else (lambda Y: ack(k, Y, d, 20., .2, 2 * k.pi))
    def spec(X):
        r = 1
        for t in range(n): r = r * V(lambda l: al[t] * (X(l) - k.at(z, t, l if wide else 0)))
        return r
    check(k, getattr(k.mod('cbx.objectives'), name)(alpha=al, z=z), x, b, d, spec)

@contract('C22', grid(d=[1, 2, 3, 5], m=[1, 2, 10], shape=['ensemble', 'list', 'single particle']))
def michalewicz(k, d, m, shape):
    x, b = pts(k, shape, d)
    f = k.mod('cbx.objectives').Michalewicz(d=d, m=m)
    def spec(X):
        r = 0
        for l in range(d): r = r + k.sin(X(l)) * k.pow(k.sin(k.div((l + 1) * X(l) * X(l), k.pi)), 2 * m)
        return -r
    check(k, f, x, b, d, spec)

@contract('C22', grid(shape=SHAPES))
def snowflake(k, shape):
    x, b = pts(k, shape, 2); al = k.real('alpha', pos=True)
    f = k.mod('cbx.objectives').snowflake(alpha=al)
    if not k.sym: x = x / al * k.choice([.3, 1.])
    def spec(X):
        y = lambda l: al * X(l)
        r = k.sqrt(sq(y(0)) + sq(y(1)))
        phi = k.arctan2(y(1), y(0))
        fi = lambda i: k.pow(r, 8) - k.pow(r, 4) + k.sqrt(k.abs(k.cos(phi + i * k.pi / 3))) * k.pow(r, .3)
        return k.min(k.min(fi(0), fi(1)), k.min(fi(2), .8))
    check(k, f, x, b, 2, spec)

@contract('C22', grid(shape=SHAPES, n=['default', 1, 2, 3]))
def multimodal(k, shape, n):
    """minus the logarithm of the sum of the normal densities"""
    d = 2; x, b = pts(k, shape, d)
    f = k.mod('cbx.objectives').Multimodal
    if n == 'default': f = f(); means, covs = [k.const_array([0., 0.])], [k.build((d, d), lambda i, j: k.ite(k.ieq(i, j), 1., 0.))]
    else:
        means = [k.array('mean%d' % t, (d,), lo=-1.9, hi=1.9) for t in range(n)]; B = [k.array('B%d' % t, (d, d), lo=-1., hi=1.) for t in range(n)]
        covs = [k.build((d, d), lambda i, j: k.Sum((d,), lambda l: k.at(b_, i, l) * k.at(b_, j, l)) + k.ite(k.ieq(i, j), .3, 0.)) for b_ in B]
        f = f(means, covs)
    check(k, f, x, b, d, lambda X: -k.log(sum(k.normal_density(m, C, X) for m, C in zip(means, covs))))

# ---- declared minimisers
MINVAL = dict(three_hump_camel=(0, 0), Himmelblau=(0, 1e-8), Bukin6=(0, 0), cross_in_tray=(-2.06261, 1e-5), Easom=(-1, 1e-9), drop_wave=(-2, 0), Holder_table=(-19.2085, 1e-4), eggholder=(-959.6407, 1e-4), Michalewicz=(-1.8013, 1e-4), snowflake=(-.25, 1e-6))
@contract('C22', grid(name=['cross_in_tray', 'eggholder', 'Michalewicz', 'snowflake']), modes='con')
def minimisers_decimal(k, name): minimisers(k, name)
@contract('C22', grid(name=['three_hump_camel', 'Himmelblau', 'Bukin6', 'Easom', 'drop_wave', 'Holder_table']))
def minimisers(k, name):
    """every declared minimiser attains the documented minimal value, for all scale and shift parameters"""
    O = k.mod('cbx.objectives')
    kw, p = {}, P()
    if name in ('Himmelblau', 'Holder_table'): kw['factor'] = k.real('factor', pos=True)
    if name == 'Holder_table': kw['shift'] = k.array('shift', (2,)) if k.choice([1, 0]) else k.real('sh')
    if name == 'snowflake':
        kw['alpha'] = k.real('alpha', pos=True)
    f = getattr(O, name)(**kw)
    v, tol = MINVAL[name]
    if not k.sym:
        r = f(f.minima); k.forall('minimal value', k.shape(r), lambda *i: abs(k.at(r, *i) - v) <= tol + 1e-7)
        z = k.array('z', (50, 2), lo=-1., hi=1.) * dict(Bukin6=5.).get(name, 1.) * (0 if name == 'Holder_table' else 1)
        if name in ('three_hump_camel', 'Himmelblau', 'Easom', 'drop_wave'): k.check('no smaller value', (f(f.minima[:1] + z) >= v - tol - 1e-7).all())
        return
    r = f(f.minima)
    if name == 'Holder_table':          # the value does not depend on scale and shift; its decimal value is evaluated concretely
        g = O.Holder_table(); r1 = g(g.minima)
        return k.forall('independent of scale and shift', k.shape(r), lambda i: k.eq(k.at(r, i), k.at(r1, i)))
    k.forall('minimal value', k.shape(r), lambda i: k.and_(k.le(v - tol, k.at(r, i)), k.le(k.at(r, i), v + tol)))

@contract('C22', grid(name=['Rosenbrock', 'Rastrigin', 'Ackley', 'Rastrigin_multimodal', 'Ackley_multimodal', 'Quadratic'], n=[1, 2]))
def parametric_minimisers(k, name, n):
    O = k.mod('cbx.objectives')
    if name == 'Rosenbrock':
        a, b = k.real('a'), k.real('b', nonneg=True); f = O.Rosenbrock(a=a, b=b)
        v = f(k.build((1, 2), lambda i, l: k.ite(k.ieq(l, 0), a, a * a))); lo = 0
        d = 2
    elif name == 'Rastrigin':
        d = 2; b, c, A = k.real('b'), k.real('c'), k.real('A', nonneg=True); f = O.Rastrigin(b=b, c=c, A=A); v = f(f.minima); lo = c
    elif name == 'Ackley':
        d = k.dim('d', hi=4); m = k.array('m', (d,)); f = O.Ackley(A=k.real('A', nonneg=True), b=k.real('b', nonneg=True), c=k.real('c'), minimum=m); v = f(f.minima[None, :]); lo = 0
    elif name == 'Quadratic':
        d = k.dim('d', hi=4); f = O.Quadratic(alpha=k.real('alpha')); v = f(k.build((1, d), lambda i, l: 0.)); lo = 0
    else:
        d = k.dim('d', hi=4); z = k.array('z', (n, d)); f = getattr(O, name)(alpha=[k.real('al%d' % t) for t in range(n)], z=z); v = f(f.minima)
        lo = 0
    k.forall('minimal value', k.shape(v), lambda *i: k.eq(k.at(v, *i), lo) if k.sym else abs(k.at(v, *i) - lo) < 1e-9)
    if 'multi' in name: return
    y = k.array('y', (k.dim('N', hi=5), d)); w = f(y)
    if not k.sym or name in ('Rosenbrock', 'Quadratic', 'Rastrigin'):
        if k.sym and name == 'Rastrigin':
            j = k.index(k.shape(y)[0])
            k.lemma_sum('terms', (d,), lambda l: sq(k.at(y, j, l) - b) - A * k.cos(2 * k.pi * (k.at(y, j, l) - b)) + A)
            return k.check('no smaller value', k.le(lo, k.at(w, j)))
        k.forall('no smaller value', k.shape(w), lambda *i: k.le(lo, k.at(w, *i) + (0 if k.sym else 1e-9)))
