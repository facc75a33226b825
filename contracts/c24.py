from api import contract, grid
from common import *
from c23 import same_set, where

class Dyn: pass
def norm(k, dd, f, p):
    if p == float('inf'):
        if len(dd) == 1: return k.Max(dd[0], lambda l: k.abs(f(l)))
        return k.Max(dd[0] * dd[1], lambda m: k.abs(f(m // dd[1], m % dd[1])))
    if p == 2: return k.sqrt(k.Sum(dd, lambda *l: f(*l)**2))
    if p == 1: return k.Sum(dd, lambda *l: k.abs(f(*l)))
    return k.pow(k.Sum(dd, lambda *l: k.pow(k.abs(f(*l)), p)), 1. / p)
def result(k, r, M, cond, name=''):
    same_set(k, name + 'successful runs', r['idx'], M, cond)
    n = k.shape(r['idx'])[0]
    k.check(name + 'count', k.ieq(r['num'], n))
    k.check(name + 'rate', k.eq(r['rate'], k.div(n, M)))

@contract('C24', grid(p=[float('inf'), 2, 1, 3], multi=[False, True], tol=['arbitrary', 'default'], via=['criterion', 'function']))
def distance(k, p, multi, tol, via):
    M, dd = k.dim('M', hi=5), ddims(k, multi)
    x, xt = k.array('best', (M,) + dd), k.array('x_true', dd)
    if not k.sym:                        # equality of distance and tolerance, and distances close to it
        x *= k.choice([.1, .5, 1.]); x[0] = xt
    t = k.real('tol', pos=True) if tol == 'arbitrary' else .25
    kw = dict(p=p) if p != float('inf') else {}
    if tol == 'arbitrary': kw['tol'] = t
    U = k.mod('cbx.utils.success')
    x0, t0 = k.snap(x), k.snap(xt)
    if via == 'criterion':
        dyn = Dyn(); dyn.best_particle = x; dyn.M = M
        r = U.dist_to_min(xt, **kw)(dyn)
    else: r = U.dist_to_min_success(x, xt, **kw)
    nd = lambda i: norm(k, dd, lambda *l: k.at(xt, *l) - k.at(x, i, *l), p)
    k.check_shape('one distance per run', r['normdiff'], (M,))
    k.forall('distance', (M,), lambda i: k.eq(k.at(r['normdiff'], i), nd(i)))
    result(k, r, M, lambda i: k.lt(nd(i), t) if k.sym else k.at(r['normdiff'], i) < t)
    k.forall('best particles untouched', (M,) + dd, lambda i, *l: k.eq(k.at(x, i, *l), k.at(x0, i, *l)))
    k.forall('target untouched', dd, lambda *l: k.eq(k.at(xt, *l), k.at(t0, *l)))

@contract('C24', grid(multi=[False, True], thresh=['arbitrary', 'default'], via=['criterion', 'function']))
def value(k, multi, thresh, via):
    M, dd = k.dim('M', hi=5), ddims(k, multi)
    f = k.objective(len(dd)); x = k.array('best', (M,) + dd)
    t = k.real('thresh', lo=-1., hi=8.) if thresh == 'arbitrary' else .1
    kw = dict(thresh=t) if thresh == 'arbitrary' else {}
    U = k.mod('cbx.utils.success')
    if via == 'criterion':
        dyn = Dyn(); dyn.best_particle = x; dyn.M = M; dyn.f = f
        r = U.value_thresh(**kw)(dyn)
    else: r = U.value_success(x[:, None, ...], f, **kw)
    result(k, r, M, lambda i: k.lt(f.at(x, i), t))

@contract('C24', grid(kinds=['a', 'ab', 'abc', 'dist', 'value', 'dist+value', 'dist+value+a', 'none']))
def combined(k, kinds):
    """arbitrary user criteria (a, b, c) and the built-in ones on a dynamic of the real code"""
    M, dd = k.dim('M', hi=5), ddims(k)
    S = Ens(k, 'CBO', 'partial', None, noise='isotropic') if not k.sym else None
    f = k.objective(len(dd)) if k.sym else S.f
    if k.sym: dyn = Dyn(); dyn.M = M; dyn.f = f; dyn.best_particle = k.array('best', (M,) + dd)
    else: S.step(); dyn, M, dd = S.dyn, int(S.M), S.dd
    U = k.mod('cbx.utils.success')
    x = dyn.best_particle
    parts = {'a': ['a'], 'ab': ['a', 'b'], 'abc': ['a', 'b', 'c'], 'none': []}.get(kinds) or kinds.split('+') if kinds != 'none' else []
    crit, conds = [], []
    for c in parts:
        if c in 'abc':
            m = k.mask('sel_' + c, M, 'any')
            crit.append(lambda d, m=m: dict(idx=where(k, m)))
            conds.append(lambda i, m=m: k.at(m, i))
        elif c == 'dist':
            xt, t = k.array('x_true', dd), k.real('tol', pos=True)
            crit.append(U.dist_to_min(xt, tol=t, p=2))
            conds.append(lambda i: k.lt(norm(k, dd, lambda *l: k.at(xt, *l) - k.at(x, i, *l), 2), t))
        else:
            th = k.real('thresh', lo=0., hi=4.)
            crit.append(U.value_thresh(th))
            conds.append(lambda i: k.lt(f.at(x, i), th))
    e = U.evaluation(crit); e.verbosity = 0
    result(k, e(dyn), M, lambda i: k.and_(*[c(i) for c in conds]) if conds else True)
    result(k, e(dyn), M, lambda i: k.and_(*[c(i) for c in conds]) if conds else True, 'again: ')
