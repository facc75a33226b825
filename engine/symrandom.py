"""Assumed contracts of the random number sources: every draw is a fresh arbitrary array of the requested shape."""
import builtins, itertools
from ir import *
import ir, prove, symnp
from symnp import Arr, shape_t
from core import Ctx, Sc, lift, wrap, wrapx

class State: n = 0; log = []
def reset(): State.n = 0; State.log = []
def _name(p):
    State.n += 1
    return '%s%d' % (p, State.n)
def draw(kind, size, lo=None, hi=None, info=None):
    exts = shape_t(size) if size is not None else ()
    nm = _name('rnd_' + kind)
    a = Arr.make(exts, lambda v: app(nm, v, 'R'), 'f') if exts else None
    r = a if a is not None else Sc(app(nm, (), 'R'))
    State.log.append((kind, tuple(wrap(e) for e in exts), info, r))
    if lo is not None:
        prove.APPAX[nm] = lambda t: [le(lo, t), le(t, hi)]
    return r
def standard_normal(size=None, dtype=None, out=None): return draw('normal', size, info=(0, 1))
def normal(loc=0.0, scale=1.0, size=None):
    z = draw('normal', size, info=(loc, scale))
    return loc + scale * z
def randn(*s): return standard_normal(s if s else None)
def uniform(low=0.0, high=1.0, size=None):
    u = draw('unif', size, const(0, 'R'), const(1, 'R'), info=(low, high))
    return low + (high - low) * u
def rand(*s): return uniform(size=s if s else None)
def random(size=None): return uniform(size=size)
def exponential(scale=1.0, size=None):
    nm = _name('rnd_exp'); exts = shape_t(size)
    SIGNFACT[nm] = '0+'; ir.sign_reset()
    a = Arr.make(exts, lambda v: app(nm, v, 'R'), 'f')
    State.log.append(('exponential', tuple(wrap(e) for e in exts), (scale,), a))
    return scale * a
def choice(a, size=None, replace=True, p=None):
    xs = list(a) if not isinstance(a, (int, Sc)) else None
    if xs is None or not all(isinstance(x, (int, float)) for x in xs) or p is not None: raise Unsupported('random choice')
    exts = shape_t(size)
    nm = _name('rnd_choice')
    def body(v):
        t = app(nm, v, 'I')
        r = fconst(xs[0])
        for i in builtins.range(1, len(xs)): r = ite(eq(t, const(i, 'I')), fconst(xs[i]), r)
        return r
    r = Arr.make(exts, body)
    State.log.append(('choice', tuple(wrap(e) for e in exts), (xs,), r))
    return r
def multivariate_normal(mean, cov, size=None, **k):
    mean, cov = symnp.asarray(mean), symnp.asarray(cov)
    exts = shape_t(size) if size is not None else ()
    nm = _name('rnd_mvn')
    a = Arr.make(exts + mean.exts, lambda v: app(nm, v, 'R'), 'f')
    State.log.append(('mvn', tuple(wrap(e) for e in a.exts), (mean, cov), a))
    return a
def seed(*a): pass
class MT19937:
    def __init__(self, seed=None): self.seed = seed
PCG64 = SeedSequence = MT19937
PERMS = {}
def perm(m_exts, n):
    """batch of permutations of range(n): name of p(m.., k) with inverse"""
    nm = _name('perm'); inv_ = nm + '_inv'
    APPRULES[nm] = lambda args: _undo(args, inv_)
    APPRULES[inv_] = lambda args: _undo(args, nm)
    prove.APPEXT[nm] = lambda t: n
    prove.APPEXT[inv_] = lambda t: n
    prove.APPAX[nm] = lambda t: _ax(t, nm, inv_, n)
    prove.APPAX[inv_] = lambda t: _ax(t, inv_, nm, n)
    SIGNFACT[nm] = '0+'; SIGNFACT[inv_] = '0+'; ir.sign_reset()
    def invert(args, pos, target):
        if pos != len(args) - 1: return None
        return (TRUE if in_range(target, n) else and_(le(const(0, 'I'), target), lt(target, n))), mkapp(inv_, list(args[:-1]) + [target], 'I')
    symnp.INVERT[nm] = invert
    PERMS[nm] = n; PERMS[inv_] = n
    return nm
def _ax(t, nm, inv_, n):
    k = t.args[-1]
    rng = and_(le(const(0, 'I'), k), lt(k, n))
    # the raw inverse application keeps the solver informed; the rewriting rule removes it syntactically elsewhere
    back = mk('app', (inv_,) + t.args[1:-1] + (t,), 'I')
    return [implies(rng, and_(le(const(0, 'I'), t), prove.lt_raw(t, n))), implies(rng, prove.eq_raw(back, k))] if t.height < 40 and not (t.args[-1].op == 'app' and t.args[-1].args[0] == inv_) else []
def _undo(args, other):
    x = args[-1]
    if x.op == 'app' and x.args[0] == other and tuple(x.args[1:-1]) == tuple(args[:-1]): return x.args[-1]
    return None
def _perm_range(t, ext):
    return t.op == 'app' and t.args[0] in PERMS and PERMS[t.args[0]] is ext and in_range(t.args[-1], ext)
RANGE_HOOK.append(_perm_range)
class RNG:
    def __init__(self, bitgen=None): self.bitgen = bitgen
    standard_normal = staticmethod(standard_normal); normal = staticmethod(normal); uniform = staticmethod(uniform)
    random = staticmethod(random); exponential = staticmethod(exponential); choice = staticmethod(choice)
    multivariate_normal = staticmethod(multivariate_normal)
    def permuted(self, x, axis=None, out=None):
        x = symnp.asarray(x)
        if axis is None or out is not None: raise Unsupported('permuted')
        axis %= x.ndim
        nm = perm(None, x.exts[axis])
        def body(v):
            w = list(v); others = [v[i] for i in builtins.range(x.ndim) if i != axis]
            w[axis] = mkapp(nm, others + [v[axis]], 'I')
            return x.at(tuple(w))
        return Arr.make(x.exts, body, x.kind)
    def permutation(self, x):
        if isinstance(x, (int, Sc)): x = symnp.arange(x)
        x = symnp.asarray(x)
        if x.ndim != 1: raise Unsupported('permutation')
        return self.permuted(x, axis=0)
    def shuffle(self, *a, **k): raise Unsupported('shuffle')
    def integers(self, *a, **k): raise Unsupported('integers')
def default_rng(seed=None): return RNG(seed)
def permutation(x): return RNG().permutation(x)
exports = dict(standard_normal=standard_normal, normal=normal, randn=randn, uniform=uniform, rand=rand, random=random,
               exponential=exponential, choice=choice, multivariate_normal=multivariate_normal, seed=seed, MT19937=MT19937,
               PCG64=PCG64, Generator=RNG, default_rng=default_rng, permutation=permutation, RandomState=RNG)

class multivariate_normal_pdf:
    """scipy.stats.multivariate_normal: pdf over the last axis, uninterpreted in (mean, cov, point)"""
    def __init__(self, mean=None, cov=None, **k):
        self.mean, self.cov = symnp.asarray(mean), symnp.asarray(cov)
    def pdf(self, x):
        x = symnp.asarray(x)
        d = x.exts[-1]
        if x.ndim == 1: be = ()
        else: be = x.exts[:-1]
        def body(v):
            j = fresh('b', 'I', d); a = fresh('b', 'I', self.mean.exts[0]); p = fresh('b', 'I', self.cov.exts[0]); q = fresh('b', 'I', self.cov.exts[1])
            return mk_fun('mvn_pdf', (((j,), (d,), toreal(num(x.at(tuple(v) + (j,))))), ((a,), (self.mean.exts[0],), toreal(num(self.mean.at((a,))))),
                                      ((p, q), self.cov.exts, toreal(num(self.cov.at((p, q)))))))
        # scipy drops unit leading axes of the result: pdf of shape (M,N,d) input is squeezed
        return symnp.squeeze(Arr.make(be, body, 'f')) if be else Sc(body(()))
SIGNFACT['mvn_pdf'] = '+'
