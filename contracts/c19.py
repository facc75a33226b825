from api import contract, grid
from common import *

class Spec:
    """a constraint g(x) = x'Ax + b'x + c given by its coefficients, and the object of the package for it"""
    def __init__(self, k, kind, d, tag=''):
        self.k, self.kind, self.d = k, kind, d
        C = k.mod('cbx.constraints')
        if kind == 'quadric':
            B = k.array('B' + tag, (d, d)); A = k.build((d, d), lambda i, j: k.at(B, i, j) + k.at(B, j, i))
            b = k.array('b' + tag, (d,)); c = k.real('c' + tag)
            self.A, self.b, self.c = (lambda i, j: k.at(A, i, j)), (lambda i: k.at(b, i)), c
            self.con = dict(name='quadric', A=A, b=b, c=c)
        elif kind == 'sphere':
            r = k.real('r' + tag, pos=True)
            self.A, self.b, self.c = (lambda i, j: k.ite(k.ieq(i, j), 1, 0)), (lambda i: 0), -r * r
            self.con = dict(name='sphere', r=r)
        elif kind == 'plane':
            a = k.array('a' + tag, (d,)); off = k.real('off' + tag)
            k.assume(k.lt(0, k.Sum((d,), lambda l: k.at(a, l) * k.at(a, l))))
            n = k.sqrt(k.Sum((d,), lambda l: k.at(a, l) * k.at(a, l)))
            self.A, self.b, self.c = (lambda i, j: 0), (lambda i: k.div(k.at(a, i), n)), -k.div(off, n)
            self.con = dict(name='plane', a=a, b=off); self.a, self.off = a, off
        elif kind == 'none':
            self.A, self.b, self.c = (lambda i, j: 0), (lambda i: 0), 0
        self.obj = C.NoConstraint() if kind == 'none' else C.get_constraints([self.con])[0]
    def g(self, X, *i):
        k, d = self.k, self.d
        x = lambda l: k.at(X, *i, l)
        quad = {'quadric': lambda: k.Sum((d, d), lambda l, m: x(l) * self.A(l, m) * x(m)), 'sphere': lambda: k.Sum((d,), lambda l: x(l) * x(l))}.get(self.kind, lambda: 0)()
        return quad + k.Sum((d,), lambda l: self.b(l) * x(l)) + self.c
    def grad(self, X, *i):
        k, d = self.k, self.d
        *b, l = i
        if self.kind == 'sphere': return 2 * k.at(X, *i)
        if self.kind == 'quadric': return 2 * k.Sum((d,), lambda m: self.A(l, m) * k.at(X, *b, m)) + self.b(l)
        return self.b(l)
    def hess(self, l, m): return 2 * self.A(l, m)

KINDS = ['quadric', 'sphere', 'plane', 'none']
SH = ['particles', 'list']
def pts(k, shape, d, name='x', **kw):
    b = dict(particles=(k.dim('M', hi=3), k.dim('N', hi=3)), list=(k.dim('N', hi=4),), point=())[shape]
    return k.array(name, b + (d,), **kw), b

@contract('C19', grid(kind=KINDS, shape=SH))
def value_gradient_hessian(k, kind, shape):
    """g(x+h) = g(x) + <grad g(x),h> + <Hess g(x)h,h>/2 exactly"""
    d = k.dim('d', hi=4); S = Spec(k, kind, d); con = S.obj
    x, b = pts(k, shape, d); h = k.array('h', b + (d,))
    x0, h0 = k.snap(x), k.snap(h)
    g, gh, G, H = con(x), con(k.build(b + (d,), lambda *i: k.at(x0, *i) + k.at(h0, *i))), con.grad(x), con.hessian(x)
    k.check_shape('value shape', g, b); k.check_shape('gradient shape', G, b + (d,))
    k.check('hessian shape', k.shape(H)[-2:] == (d, d) if not k.sym else True)
    full = len(k.shape(H)) == len(b) + 2
    Hat = (lambda i, l, m: k.at(H, *i, l, m)) if full else (lambda i, l, m: k.at(H, l, m))
    k.forall('value', b, lambda *i: k.eq(k.at(g, *i), S.g(x0, *i)))
    k.forall('exact second order expansion', b, lambda *i: k.eq(k.at(gh, *i), k.at(g, *i) + k.Sum((d,), lambda l: k.at(G, *i, l) * k.at(h0, *i, l)) +
             k.Sum((d, d), lambda l, m: Hat(i, l, m) * k.at(h0, *i, l) * k.at(h0, *i, m)) / 2))
    k.forall('gradient', b + (d,), lambda *i: k.eq(k.at(G, *i), S.grad(x0, *i)))
    k.forall('hessian', b + (d, d), lambda *i: k.eq(Hat(i[:-2], i[-2], i[-1]), S.hess(i[-2], i[-1])))
    k.forall('argument untouched', b + (d,), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))
    if kind == 'plane':
        k.forall('zero exactly on the plane', b, lambda *i: k.iff(k.eq(k.at(g, *i), 0), k.eq(k.Sum((d,), lambda l: k.at(S.a, l) * k.at(x0, *i, l)), S.off)))

@contract('C19', grid(kind=KINDS, shape=SH))
def squared(k, kind, shape):
    """value, gradient and Hessian of the square"""
    d = k.dim('d', hi=4); S = Spec(k, kind, d); con = S.obj
    x, b = pts(k, shape, d); x0 = k.snap(x)
    q, G, H, C = con.squared(x), con.grad_squared(x), con.hessian_squared(x), con.call_times_hessian(x)
    k.check_shape('value shape', q, b); k.check_shape('gradient shape', G, b + (d,)); k.check_shape('hessian shape', H, b + (d, d))
    k.forall('value', b, lambda *i: k.eq(k.at(q, *i), S.g(x0, *i) * S.g(x0, *i)))
    k.forall('gradient', b + (d,), lambda *i: k.eq(k.at(G, *i), 2 * S.g(x0, *i[:-1]) * S.grad(x0, *i)))
    k.forall('hessian', b + (d, d), lambda *i: k.eq(k.at(H, *i), 2 * S.grad(x0, *i[:-1]) * S.grad(x0, *i[:-2], i[-1]) + 2 * S.g(x0, *i[:-2]) * S.hess(i[-2], i[-1])))
    k.forall('value times hessian', b + (d, d), lambda *i: k.eq(k.at(C, *i), S.g(x0, *i[:-2]) * S.hess(i[-2], i[-1])))
    k.forall('argument untouched', b + (d,), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))

def system(k, name, z, b, d, mat, rhs):
    """(I + matrix) z = rhs"""
    k.check_shape(name + ' shape', z, b + (d,))
    def f(*i):
        k.use_solve(k.at(z, *i), i[-1])
        return k.near(k.at(z, *i) + k.Sum((d,), lambda m: mat(i[:-1], i[-1], m) * k.at(z, *i[:-1], m)), rhs(*i), lambda: rounding(i))
    def rounding(i):        # the residual of a backward stable solver
        zs = max(abs(k.at(z, *i[:-1], m)) for m in range(int(d)))
        return 1e-12 * d * zs * (1 + max(abs(mat(i[:-1], l, m)) for l in range(int(d)) for m in range(int(d))))
    k.forall(name, b + (d,), f)

SOLVES = ['call_times_hessian', 'hessian_squared', 'call_grad']
@contract('C19', grid(kind=KINDS, which=SOLVES, via=['constraint', 'collection']))
def solve_single(k, kind, which, via):
    """every linear solve returns the solution of the system it names (one constraint)"""
    k.mild = True
    C = k.mod('cbx.constraints')
    d = k.dim('d', hi=4); S = Spec(k, kind, d)
    if kind == 'none' and which == 'call_grad': return k.check('not offered', not hasattr(S.obj, 'solve_Id_plus_call_grad'))
    x, b = pts(k, 'particles', d); x0 = k.snap(x)
    r = k.array('rhs', b + (d,)); r0 = k.snap(r)
    fac = k.real('factor', pos=True)
    obj = S.obj if via == 'constraint' else C.MultiConstraint([S.obj])
    g = lambda i: S.g(x0, *i)
    if which == 'call_times_hessian':
        z = obj.solve_Id_call_times_hessian(x, r, factor=fac)
        system(k, 'system', z, b, d, lambda i, l, m: fac * g(i) * S.hess(l, m), lambda *i: k.at(r0, *i))
    elif which == 'hessian_squared':
        z = (obj.solve_Id_hessian_squared if via == 'constraint' else obj.solve_Id_hessian_squared_sum)(x, r, factor=fac)
        system(k, 'system', z, b, d, lambda i, l, m: fac * (2 * S.grad(x0, *i, l) * S.grad(x0, *i, m) + 2 * g(i) * S.hess(l, m)), lambda *i: k.at(r0, *i))
    else:
        if kind == 'sphere': hy = k.hyp(b, lambda *i: k.lt(0, 1 + 4 * fac * g(i)) if k.sym else True)
        z = obj.solve_Id_plus_call_grad(x, r, factor=fac)
        def rhs(*i):
            if kind == 'sphere': hy(*i[:-1])
            return k.at(r0, *i) - 2 * fac * g(i[:-1]) * S.b(i[-1])
        system(k, 'system', z, b, d, lambda i, l, m: 4 * fac * g(i) * S.A(l, m), rhs)
    k.forall('arguments untouched', b + (d,), lambda *i: k.and_(k.eq(k.at(x, *i), k.at(x0, *i)), k.eq(k.at(r, *i), k.at(r0, *i))))

class Abstract:
    """an arbitrary constraint: value, gradient, Hessian are unknown functions of the point"""
    def __init__(self, k, t):
        C = k.mod('cbx.constraints'); self.k = k
        v, g, h = k.objective(1, name='cval%s' % t), k.vecmap(1, name='cgrad%s' % t), k.vecmap(1, name='chess%s' % t)
        self.v, self.gr, self.h = v, g, h
        class Con(C.Constraint):
            def __call__(s, x): return v(x)
            def grad(s, x): return g(x)
            def hessian(s, x):
                w = h(x)                # symmetric matrix with entries w_l w_m
                return w[..., None] * w[..., None, :]
        self.obj = Con()
    def g(self, X, *i): return self.v.at(X, *i)
    def grad(self, X, *i): return self.gr.at(X, *i)
    def hess(self, X, b, l, m): return self.h.at(X, *b, l) * self.h.at(X, *b, m)

@contract('C19', grid(n=[0, 1, 2, 3], shape=SH))
def sums(k, n, shape):
    """values, squares, gradients and Hessians of several constraints add up"""
    C = k.mod('cbx.constraints')
    d = k.dim('d', hi=3); x, b = pts(k, shape, d); x0 = k.snap(x)
    cs = [Abstract(k, t) for t in range(n)]
    mc = C.MultiConstraint([c.obj for c in cs])
    tot = lambda f: sum((f(c) for c in cs), 0)
    at = lambda A, *i: k.at(A, *i) if n else A
    q, v = mc.squared(x), mc(x)
    if n: k.check_shape('value shape', v, b); k.check_shape('square shape', q, b)
    k.forall('value', b, lambda *i: k.eq(at(v, *i), tot(lambda c: c.g(x0, *i))))
    k.forall('square', b, lambda *i: k.eq(at(q, *i), tot(lambda c: c.g(x0, *i) * c.g(x0, *i))))
    G = mc.grad_squared_sum(x); H = mc.hessian_squared_sum(x); H1 = mc.hessian_sum(x); CH = mc.call_times_hessian_sum(x)
    k.check_shape('gradient shape', G, b + (d,)); k.check_shape('hessian shape', H, b + (d, d))
    k.forall('gradient of the squares', b + (d,), lambda *i: k.eq(k.at(G, *i), tot(lambda c: 2 * c.g(x0, *i[:-1]) * c.grad(x0, *i))))
    hs = lambda c, i: 2 * c.grad(x0, *i[:-1]) * c.grad(x0, *i[:-2], i[-1]) + 2 * c.g(x0, *i[:-2]) * c.hess(x0, i[:-2], i[-2], i[-1])
    k.forall('hessian of the squares', b + (d, d), lambda *i: k.eq(k.at(H, *i), tot(lambda c: hs(c, i))))
    k.forall('hessian', b + (d, d), lambda *i: k.eq(k.at(H1, *i), tot(lambda c: c.hess(x0, i[:-2], i[-2], i[-1]))))
    if n: k.forall('value times hessian', b + (d, d), lambda *i: k.eq(k.at(CH, *i), tot(lambda c: c.g(x0, *i[:-2]) * c.hess(x0, i[:-2], i[-2], i[-1]))))
    k.forall('argument untouched', b + (d,), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))

@contract('C19', grid(n=[0, 2, 3], which=SOLVES))
def solve_several(k, n, which):
    k.mild = True
    C = k.mod('cbx.constraints')
    d = k.dim('d', hi=3); x, b = pts(k, 'particles', d); x0 = k.snap(x)
    r = k.array('rhs', b + (d,)); r0 = k.snap(r); fac = k.real('factor', pos=True)
    cs = [Abstract(k, t) for t in range(n)]
    mc = C.MultiConstraint([c.obj for c in cs] if n else k.choice([[], None]))
    tot = lambda f: sum((f(c) for c in cs), 0)
    if which == 'call_grad':
        if n > 1: return k.raises('several constraints are rejected', lambda: mc.solve_Id_plus_call_grad(x, r, factor=fac), ValueError)
        z = mc.solve_Id_plus_call_grad(x, r, factor=fac); mat = lambda i, l, m: 0
    elif which == 'call_times_hessian':
        z = mc.solve_Id_call_times_hessian(x, r, factor=fac)
        mat = lambda i, l, m: fac * tot(lambda c: c.g(x0, *i) * c.hess(x0, i, l, m))
    else:
        z = mc.solve_Id_hessian_squared_sum(x, r, factor=fac)
        mat = lambda i, l, m: fac * tot(lambda c: 2 * c.grad(x0, *i, l) * c.grad(x0, *i, m) + 2 * c.g(x0, *i) * c.hess(x0, i, l, m))
    system(k, 'system', z, b, d, mat, lambda *i: k.at(r0, *i))

@contract('C19')
def construction(k):
    """constraints are built from their descriptions, in order; empty descriptions are skipped"""
    C = k.mod('cbx.constraints')
    d = k.dim('d'); r = k.real('r', pos=True); a = k.array('a', (d,)); o = k.real('o')
    k.check('none', C.get_constraints(None) == [] and C.get_constraints([]) == [] and C.get_constraints([None]) == [])
    cs = C.get_constraints([dict(name='sphere', r=r), None, dict(name='plane', a=a, b=o), dict(name='quadric', A=k.array('A', (d, d)), b=a, c=o)])
    k.check('classes', [type(c) for c in cs] == [C.sphereConstraint, C.planeConstraint, C.quadricConstraint])
    k.check('parameters', k.and_(k.eq(cs[0].r, r), k.eq(cs[1].b, o), k.eq(cs[2].c, o)))
