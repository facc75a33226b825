from api import contract, grid
from common import *

class Dyn:
    """plain holder of parameters"""
    def __init__(self, **kw): self.__dict__.update(kw)

@contract('C13', grid(param=['alpha', 'sigma', 'dt'], shape=['array', 'scalar'], bound=['given', 'default']))
def multiply(k, param, shape, bound):
    """p becomes min(factor p, maximum) elementwise; everything else stays"""
    S = k.mod('cbx.scheduler')
    M = k.dim('M', hi=4)
    fac = k.real('factor', lo=-1., hi=3.)
    if shape == 'array': v = k.array('p', (M, 1), lo=-3., hi=3.)
    else: v = k.real('p')
    old = k.snap(v) if shape == 'array' else v
    kw = {}
    mx = 1e5
    if bound == 'given': mx = k.real('maximum', lo=-1., hi=3.); kw['maximum'] = mx
    elif not k.sym and shape == 'array': v *= k.choice([1., 1e5]); old = k.snap(v)
    o = S.multiply(name=param, factor=fac, **kw)
    x = k.array('x', (M, 2)); x0 = k.snap(x)
    dyn = Dyn(x=x, other=7., **{param: v})
    for n in range(2):
        o.update(dyn)
        new = getattr(dyn, param)
        spec = lambda a: k.min(mx, fac * a)
        if shape == 'array':
            k.check_shape('shape', new, (M, 1))
            k.forall('value', (M,), lambda i: k.eq(k.at(new, i, 0), spec(k.at(old, i, 0))))
            k.forall('capped', (M,), lambda i: k.le(k.at(new, i, 0), mx))
            old = k.snap(new)
        else:
            k.check('value', k.eq(new, spec(old))); k.check('capped', k.le(new, mx)); old = new
        k.forall('nothing else', (M, 2), lambda i, j: k.ieq(k.at(dyn.x, i, j), k.at(x0, i, j)))
        k.check('no other attribute', set(dyn.__dict__) == {'x', 'other', param} and dyn.other == 7.)

@contract('C13', grid(n=[0, 1, 2, 3]))
def schedule_list(k, n):
    """a list of schedules is applied in the given order, each exactly once per update"""
    S = k.mod('cbx.scheduler')
    log = []
    class P(S.param_update):
        def __init__(self, i): super().__init__(); self.i = i
        def update(self, dyn): log.append((self.i, dyn.tag))
    sc = S.scheduler([P(i) for i in range(n)])
    for step in range(2):
        del log[:]
        sc.update(Dyn(tag=step))
        k.check('order', log == [(i, step) for i in range(n)])

@contract('C13', grid(sched=['default', 'list', 'single', 'effective', 'alpha_eff', None], steps=[1, 3]), modes='con')
def schedules_in_optimisation(k, sched, steps):
    """optimisation applies the schedule once after every step"""
    import numpy as np
    S = k.mod('cbx.scheduler'); D = k.mod('cbx.dynamics')
    M, N, d = int(k.dim('M', hi=3)), int(k.dim('N', lo=2, hi=4)), int(k.dim('d', hi=3))
    a0 = k.real('alpha', pos=True)
    dyn = D.CBO(k.objective(1), f_dim='3D', x=k.array('x0', (M, N, d)), verbosity=0, check_f_dims=False, max_it=steps, alpha=a0, dt=.1)
    f = k.real('factor', pos=True)
    if sched in ('list', 'single'):
        s = S.scheduler([S.multiply(name='alpha', factor=f, maximum=10.), S.multiply(name='dt', factor=.5)]) if sched == 'list' else S.multiply(name='alpha', factor=f, maximum=10.)
        dyn.optimize(sched=s)
        a = a0
        for _ in range(steps): a = min(f * a, 10.)
        k.check('alpha', np.allclose(dyn.alpha, a) and (sched == 'single' or np.allclose(dyn.dt, .1 * .5 ** steps)))
    elif sched is None:
        dyn.optimize(sched=None); k.check('alpha', (dyn.alpha == a0).all())
    else:
        dyn.optimize(sched='default' if sched == 'default' else ('effective' if sched == 'effective' else S.effective_sample_size(eta=.5)))
        k.check('alpha in the bracket', dyn.alpha.shape == (M, 1) and (dyn.alpha <= 1e5).all() and (dyn.alpha > 0).all())

@contract('C13')
def sample_size_gap(k):
    """J(alpha) - eta N with J = (sum w)^2 / sum w^2, w = exp(-alpha energy)"""
    k.mild = True
    S = k.mod('cbx.scheduler')
    M, N = k.dim('M', hi=4), k.dim('N', hi=5)
    E = k.array('energy', (M, N)); eta = k.real('eta', pos=True)
    a = k.array('alpha', (M,), pos=True)
    g = S.eff_sample_size_gap(E, eta)
    r = g(a)
    w = lambda i, j: k.exp(-k.at(a, i) * k.at(E, i, j))
    sw = lambda i: k.Sum((N,), lambda j: w(i, j)); sw2 = lambda i: k.Sum((N,), lambda j: w(i, j) * w(i, j))
    k.check_shape('one value per run', r, (M,))
    k.forall('value', (M,), lambda i: k.eq(k.at(r, i), k.div(sw(i) * sw(i), sw2(i)) - eta * N))

@contract('C13')
def sample_size_bounds(k):
    """1 <= J <= N for the value computed by the code"""
    S = k.mod('cbx.scheduler')
    M, N = k.dim('M', hi=4), k.dim('N', hi=6)
    E = k.array('energy', (M, N), lo=-50., hi=50.); a = k.array('alpha', (M,), pos=True)
    if not k.sym: a = a * k.choice([1e-5, 1., 1e3, 1e5])
    J = S.eff_sample_size_gap(E, 0.)(a)
    if not k.sym:
        k.forall('bounds', (M,), lambda i: 1 - 1e-7 <= k.at(J, i) <= N + 1e-7)
        return
    # Cauchy-Schwarz by a sum of squares: N sum w^2 - (sum w)^2 = 1/2 sum_ij (w_i - w_j)^2, and (sum w)^2 - sum w^2 = sum_i w_i (sum w - w_i)
    i = k.index(M)
    w = lambda j: k.exp(-k.at(a, i) * k.at(E, i, j))
    s1, s2 = k.Sum((N,), w), k.Sum((N,), lambda j: w(j) * w(j))
    k.lemma_sum('square', (N, N), lambda p, q: (w(p) - w(q)) * (w(p) - w(q)))
    k.lemma('sum of squares', k.eq(k.Sum((N, N), lambda p, q: (w(p) - w(q)) * (w(p) - w(q))), 2 * N * s2 - 2 * s1 * s1))
    k.lemma('positive', k.lt(0, s2))
    k.check('value', k.eq(k.at(J, i), k.div(s1 * s1, s2)))
    k.check('upper bound, cleared', k.le(s1 * s1, N * s2))

class Bisect:
    """invariant of the bisection: the bracket of every run stays inside the initial one and keeps enclosing the root"""
    def __init__(self, k, S): self.k, self.S = k, S
    def facts(self, lo, hi, x, it, term, first):
        """per run: list of (name, condition)"""
        k, S = self.k, self.S
        def f(i):
            l, h, r = k.at(lo, i), k.at(hi, i), k.at(S.root, i)
            out = [('inside the initial bracket', k.and_(k.le(k.at(S.lo, i), l), k.le(l, h), k.le(h, k.at(S.hi, i)))),
                   ('encloses the root', k.and_(k.le(l, r), k.le(r, h)))]
            if first: return out
            v = k.at(x, i)
            rest = k.le(k.abs(S.G(i, v)), S.thresh)
            return out + [('iterate in the initial bracket', k.and_(k.le(k.at(S.lo, i), v), k.le(v, k.at(S.hi, i)))),
                ('distance to the root', k.le(k.abs(v - r), h - l)),
                ('resting run', k.implies(rest, k.eq(2 * v, l + h))),
                ('stops at the limit or when all runs rest', k.implies(term, k.or_(k.lt(S.max_it, it), rest)))]
        return f
    def enter(self, loc, vals):
        k, S = self.k, self.S
        for n in ('low', 'high', 'x', 'it', 'term'):
            if n not in loc:
                k.unsupported('loop contract does not match the locals')
        k.forall('loop invariant on entry', (S.M,), self.facts(loc['low'], loc['high'], None, loc['it'], loc['term'], True))
        k.check('counter starts at zero', k.ieq(loc['it'], 0))
        lo, hi, x = (k.array('l_' + n, (S.M,)) for n in ('lo', 'hi', 'x'))
        it = k.int('l_it'); term = k.at(k.array('l_term', (1,), kind='b'), 0)
        S.first = bool(k.ieq(it, 0))
        k.assume(k.le(0, it))
        if S.first: k.assume(k.not_(term))
        g = self.facts(lo, hi, x, it, term, S.first)
        for n in range(2 if S.first else 6): k.assume_forall((S.M,), lambda i: g(i)[n][1])
        k.assume(k.implies(k.not_(term), k.le(it, S.max_it)))
        loc['low'][...] = lo; loc['high'][...] = hi
        S.old = (k.snap(lo), k.snap(hi), it)
        S.x = k.snap(x); S.l_it = it
        return dict(it=it, term=term, x=x)
    def back(self, loc):
        k, S = self.k, self.S
        lo, hi, x = loc['low'], loc['high'], loc['x']
        k.forall('loop invariant preserved', (S.M,), self.facts(lo, hi, x, loc['it'], loc['term'], False))
        k.check('iteration counted', k.ieq(loc['it'], S.old[2] + 1))
        k.check('goes on below the limit only', k.implies(k.not_(loc['term']), k.le(loc['it'], S.max_it)))
        k.forall('midpoint', (S.M,), lambda i: k.eq(2 * k.at(x, i), k.at(S.old[0], i) + k.at(S.old[1], i)))
        k.forall('the bracket is halved unless the run rests', (S.M,), lambda i: k.or_(k.le(k.abs(S.G(i, k.at(x, i))), S.thresh), k.eq(2 * (k.at(hi, i) - k.at(lo, i)), k.at(S.old[1], i) - k.at(S.old[0], i))))
        if not S.first:
            k.forall('resting runs do not move', (S.M,), lambda i: k.implies(k.le(k.abs(S.G(i, k.at(S.x, i))), S.thresh),
                k.and_(k.eq(k.at(x, i), k.at(S.x, i)), k.eq(k.at(lo, i), k.at(S.old[0], i)), k.eq(k.at(hi, i), k.at(S.old[1], i)))))

@contract('C13')
def bisection(k):
    """the bisection stays in the bracket, keeps enclosing the root and rests below the tolerance (f: arbitrary non-increasing)"""
    Sc = k.mod('cbx.scheduler')
    if not k.sym: return bisection_run(k, Sc)
    from ir import app, num, toreal
    from core import lift, wrapx, Sc as Scal
    from symnp import Arr
    class S: pass
    S.M = k.dim('M'); M = S.M
    S.lo, S.hi, S.root = k.array('lo', (M,)), k.array('hi', (M,)), k.array('root', (M,))
    S.max_it = k.int('max_it'); k.assume(k.le(0, S.max_it)); S.thresh = k.real('thresh', nonneg=True)
    S.G = lambda i, v: wrapx(app('G', (num(lift(i)), toreal(num(lift(v)))), 'R'))
    k.assume_forall((M,), lambda i: k.and_(k.le(k.at(S.lo, i), k.at(S.root, i)), k.le(k.at(S.root, i), k.at(S.hi, i))))
    def f(x):
        r = k.build((M,), lambda i: S.G(i, k.at(x, i)))
        # f non-increasing with a root: positive values lie left of the root, negative ones right of it
        xs = k.snap(x)
        k.assume_forall((M,), lambda i: k.and_(k.implies(k.lt(0, S.G(i, k.at(xs, i))), k.le(k.at(xs, i), k.at(S.root, i))), k.implies(k.lt(S.G(i, k.at(xs, i)), 0), k.le(k.at(S.root, i), k.at(xs, i)))))
        return r
    k.loop('bisection_solve', Bisect(k, S))
    x = Sc.bisection_solve(f, k.snap(S.lo), k.snap(S.hi), max_it=S.max_it, thresh=S.thresh)
    k.check_shape('one value per run', x, (M,))
    k.forall('inside the bracket', (M,), lambda i: k.and_(k.le(k.at(S.lo, i), k.at(x, i)), k.le(k.at(x, i), k.at(S.hi, i))))
    k.forall('residual below the tolerance unless the limit is reached', (M,), lambda i: k.or_(k.lt(S.max_it, S.l_it), k.le(k.abs(S.G(i, k.at(x, i))), S.thresh)))

def bisection_run(k, Sc):
    import numpy as np
    M = int(k.dim('M', hi=4))
    root = k.rng.uniform(-3, 3, M); s = k.rng.uniform(.1, 4., M); cube = k.rng.random(M) < .5
    out = k.rng.random(M) < .2
    lo, hi = root - k.rng.uniform(.1, 5, M), root + k.rng.uniform(.1, 5, M)
    lo = np.where(out, root + .5, lo); hi = np.where(out, root + 2., hi)
    calls = []
    def f(x):
        calls.append(x.copy())
        t = s * (root - x)
        return np.where(cube, t ** 3, t)
    mi = int(k.rng.integers(0, 30)); th = k.choice([1e-2, 1e-6, .5])
    x = Sc.bisection_solve(f, lo.copy(), hi.copy(), max_it=mi, thresh=th)
    k.check('shape', x.shape == (M,))
    k.check('inside the bracket', ((x >= lo) & (x <= hi)).all())
    n = len(calls)
    k.check('number of iterations', 1 <= n <= mi + 1)
    w = (hi - lo) / 2. ** n
    res = np.abs(f(x))
    k.check('midpoint of an enclosing interval', (out | (np.abs(x - root) <= w * (1 + 1e-9)) | (res <= th)).all())
    k.check('stopped by limit or tolerance', n == mi + 1 or (res <= th).all())
    L, H = lo.copy(), hi.copy()
    for c in calls[:n]:
        for i in range(M):
            m = (L[i] + H[i]) / 2; k.check('midpoints', abs(c[i] - m) < 1e-12)
            t = s[i] * (root[i] - m); v = t ** 3 if cube[i] else t
            if abs(v) > th:
                if v > 0: L[i] = m
                else: H[i] = m

@contract('C13', grid(backend=['numpy', 'torch']), modes='con')
def effective_sample_size(k, backend):
    """the schedule sets alpha per run, in the bracket, with J(alpha) near eta N or at the end of the bracket"""
    k.mild = True
    import numpy as np
    S = k.mod('cbx.scheduler'); D = k.mod('cbx.dynamics')
    M, N = int(k.dim('M', hi=4)), int(k.dim('N', lo=2, hi=8))
    eta = float(k.rng.uniform(.2, .95)); mx = k.choice([1e5, 50.])
    E = k.array('energy', (M, N)) * k.choice([1., 1e-3, 10., 1e3])
    mn = 1e-5 if backend == 'numpy' else k.choice([1e-5, 1e-2])
    if backend == 'numpy': C, S, x0 = D.CBO, S, k.array('x0', (M, N, 2))
    else: S = k.mod('cbx.utils.torch_utils'); C, x0 = S.to_torch_dynamic(D.CBO), k.tensor(k.array('x0', (M, N, 2)))
    dyn = C(k.objective(1), f_dim='3D', x=x0, verbosity=0, check_f_dims=False)
    dyn.energy = E.copy()
    o = S.effective_sample_size(eta=eta, maximum=mx, solve_max_it=60, **(dict(minimum=mn) if backend == 'torch' else {}))
    o.update(dyn)
    al = dyn.alpha
    if backend == 'torch': k.check('a tensor like the positions', al.dtype == dyn.x.dtype and al.device == dyn.x.device); dyn.alpha = al.numpy()
    k.check('shape', dyn.alpha.shape == (M, 1))
    k.check('cap', (dyn.alpha <= mx * (1 + 1e-12)).all() and (dyn.alpha >= mn * (1 - 1e-12)).all())
    k.check('energies untouched', np.array_equal(dyn.energy, E))
    for i in range(M):
        w = np.exp(-dyn.alpha[i, 0] * (E[i] - E[i].min())); J = w.sum() ** 2 / (w ** 2).sum()
        wm = np.exp(-mx * (E[i] - E[i].min())); Jm = wm.sum() ** 2 / (wm ** 2).sum()
        wn = np.exp(-mn * (E[i] - E[i].min())); Jn = wn.sum() ** 2 / (wn ** 2).sum()
        k.check('effective sample size', abs(J - eta * N) <= 1e-2 + 1e-6 or Jm > eta * N or Jn < eta * N)

@contract('C13', grid(maximum=['default', 'given'], name=['alpha', 'sigma']))
def effective_update(k, maximum, name):
    """the schedule hands bracket [minimum, maximum], the gap function and the energies to the bisection (replaced by its contract) and stores its capped result"""
    k.mild = True
    S = k.mod('cbx.scheduler')
    M, N = k.dim('M', hi=4), k.dim('N', hi=5)
    kw = {}; mx = 1e5
    if maximum == 'given': mx = k.real('maximum', lo=1., hi=100.); kw['maximum'] = mx
    eta = k.real('eta', pos=True)
    E = k.array('energy', (M, N), lo=-2., hi=2.); E0 = k.snap(E)
    p = k.array('p', (M, 1), pos=True)
    calls = []
    def stub(f, low, high, max_it=100, thresh=1e-2, verbosity=0):
        calls.append((low, high, max_it, thresh))
        k.check_shape('bracket', low, (M,)); k.check_shape('bracket', high, (M,))
        k.forall('bracket', (M,), lambda i: k.and_(k.eq(k.at(low, i), 1e-5), k.eq(k.at(high, i), mx)))
        a = k.array('probe', (M,), lo=1e-5, hi=10.)
        r = f(a)
        w = lambda i, j: k.exp(-k.at(a, i) * k.at(E0, i, j))
        sw = lambda i: k.Sum((N,), lambda j: w(i, j)); sw2 = lambda i: k.Sum((N,), lambda j: w(i, j) * w(i, j))
        k.forall('gap function', (M,), lambda i: k.eq(k.at(r, i), k.div(sw(i) * sw(i), sw2(i)) - eta * N))
        stub.x = k.array('solution', (M,), lo=0., hi=200.)
        return stub.x
    orig = S.bisection_solve
    S.bisection_solve = stub
    try:
        o = S.effective_sample_size(name=name, eta=eta, solve_max_it=23, **kw)
        dyn = Dyn(M=M, N=N, energy=E, other=5., **{name: p})
        o.update(dyn)
    finally: S.bisection_solve = orig
    if len(calls) != 1: k.unsupported('the bisection is not called through its contract')
    new = getattr(dyn, name)
    k.check('iteration limit', calls[0][2] == 23 and 0 < calls[0][3] <= 1e-2)
    k.check_shape('one value per run', new, (M, 1))
    k.forall('stored and capped', (M,), lambda i: k.eq(k.at(new, i, 0), k.min(mx, k.at(stub.x, i))))
    k.forall('energies untouched', (M, N), lambda i, j: k.ieq(k.at(dyn.energy, i, j), k.at(E0, i, j)))
    k.check('no other attribute', set(dyn.__dict__) == {'M', 'N', 'energy', 'other', name})
