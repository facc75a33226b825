"""Symbolic kit: contracts evaluated on arbitrary inputs; every ensures becomes a proof obligation."""
import time, traceback, os, sys
import ir, prove, core, symnp, symrandom, loader, linalg, parallel
from ir import *
from core import Ctx, Sc, lift, wrap, wrapx, PathEnd
from symnp import Arr
from api import Discard

class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'info', 'path')
    def __init__(self, name, status, backend, t=0., info='', path=''):
        self.name, self.status, self.backend, self.time, self.info, self.path = name, status, backend, t, info, path

class SymObjective:
    """arbitrary objective: an uninterpreted functional of the point; every call is recorded"""
    def __init__(self, name, dd, conv='3D'):
        self.name, self.dd, self.conv = name, dd, conv
        self.calls = []
        self.hooks = []
    def term(self, row):
        return mk_fun(self.name, (row,), ())
    def __call__(self, x):
        x = symnp.asarray(x)
        nd = self.dd
        self.calls.append(x.copy()); parallel.Journal.n += 1
        if x.ndim < nd: raise IndexError('objective called with too few dimensions')
        be = x.exts[:x.ndim - nd]; de = x.exts[x.ndim - nd:]
        def body(v):
            fr = symnp.ivars(de)
            return self.term((fr, de, toreal(num(x.at(tuple(v) + fr)))))
        r = Arr.make(be, body, 'f')
        return r if be else wrapx(r.store.body)
    def at(self, X, *idx):
        """value at the point X[idx, ...]"""
        ix = tuple(num(lift(i)) for i in idx)
        de = X.exts[len(ix):]
        fr = symnp.ivars(de)
        return wrapx(self.term((fr, de, toreal(num(X.at(ix + fr))))))
    def atfn(self, dims, fn):
        de = tuple(symnp.dimt(e) for e in dims)
        fr = symnp.ivars(de)
        return wrapx(self.term((fr, de, toreal(num(lift(fn(*[Sc(v) for v in fr])))))))
class SymVecMap(SymObjective):
    """arbitrary map of a particle to a particle of the same shape (applied per particle)"""
    def __call__(self, x):
        x = symnp.asarray(x)
        nb = x.ndim - self.dd
        self.calls.append(x.copy())
        de = x.exts[nb:]
        def body(v):
            fr = symnp.ivars(de)
            return mk_fun(self.name, ((fr, de, toreal(num(x.at(tuple(v[:nb]) + fr)))),), tuple(v[nb:]))
        return Arr.make(x.exts, body, 'f')
    def at(self, X, *idx):
        ix = tuple(num(lift(i)) for i in idx); nb = len(ix) - self.dd
        de = X.exts[nb:]; fr = symnp.ivars(de)
        return wrapx(mk_fun(self.name, ((fr, de, toreal(num(X.at(ix[:nb] + fr)))),), ix[nb:]))
class SymModels:
    """models of one architecture with arbitrary parameters; a model is an uninterpreted function of the parameter entries and the input row"""
    def __init__(self, k, n, shapes, out, own):
        self.shapes, self.out = dict(shapes), symnp.dimt(out)
        self.params = {q: k.array(own + '_' + q, ((n,) if n is not None else ()) + tuple(s)) for q, s in shapes.items()}
        self.arg = self
        self.calls = []
    def stacked(self): return dict(self.params)
    def term(self, groups, row, o):
        return mk_fun('Fmodel', tuple(groups) + (row,), (o,))
    def group(self, q, at):
        de = symnp.shape_t(tuple(self.shapes[q])); fr = symnp.ivars(de)
        return (fr, de, toreal(num(lift(at(*fr)))))
    def functional(self, params, x):
        x = symnp.asarray(x)
        for q in params:
            if q not in self.shapes: raise KeyError('model has no parameter ' + str(q))
        ps = {}
        for q, s in self.shapes.items():
            a = symnp.asarray(params[q]) if q in params else self.params[q]
            if a.ndim != len(s) or not all(symnp.dim_eq(e, symnp.dimt(t)) for e, t in zip(a.exts, s)): raise Unsupported('functional_call with other parameter shapes')
            ps[q] = a
        self.calls.append({q: a.copy() for q, a in ps.items()})
        def body(v):
            fr = symnp.ivars(x.exts[-1:])
            return self.term([self.group(q, lambda *i, a=ps[q]: Sc(a.at(tuple(num(lift(j)) for j in i)))) for q in self.shapes], (fr, x.exts[-1:], toreal(num(x.at(tuple(v[:-1]) + fr)))), v[-1])
        return Arr.make(x.exts[:-1] + (self.out,), body, 'f')
    def own(self, q, *i): return wrapx(self.params[q].at(tuple(num(lift(j)) for j in i)))
    def value(self, params, X, *ix):
        """output ix[-1] for the row X[ix[:-1]] with parameters params[q](*index)"""
        r = tuple(num(lift(i)) for i in ix)
        fr = symnp.ivars(X.exts[-1:])
        return wrapx(self.term([self.group(q, (lambda *i, f=params[q]: f(*[Sc(j) for j in i])) if q in params else (lambda *i, q=q: Sc(self.params[q].at(tuple(i))))) for q in self.shapes],
                               (fr, X.exts[-1:], toreal(num(X.at(r[:-1] + fr)))), r[-1]))
class SymSampler:
    def __init__(self, name): self.name = name; self.samples = []
    def __call__(self, size=None):
        exts = symnp.shape_t(size) if size is not None else ()
        parallel.Journal.n += 1
        nm = '%s_%d' % (self.name, len(self.samples))
        a = Arr.make(exts, lambda v: app(nm, v, 'R'), 'f')
        self.samples.append(a.copy())
        return a
class Active:
    """the set {i < M : mask(i)} enumerated in increasing order"""
    def __init__(self, k, mask):
        self.mask = mask
        e = mask.exts[0]
        v = fresh('i', 'I', e)
        c = mask.at((v,))
        self.g = ((v,), (e,), c)
        self.K = wrapx(wh_K(*self.g))
    def run(self, p): return wrapx(wh_e(*self.g, 0, lift(p)))
    def pos(self, i): return wrapx(wh_inv(*self.g, (lift(i),)))
    def has(self, i): return wrapx(self.mask.at((num(lift(i)),)))

class SymKit:
    sym = True
    def __init__(self, budget=60.0, tier='quick'):
        self.obl = []; self.paths = 0; self.t_end = time.time() + budget
        self.smt = []          # failing queries kept for the replay file
        self.reach = 0
        self.tier = tier
    def restart(self): self.obl = []; self.smt = []; self.reach = 0
    # ---- per path
    def begin(self, ctx):
        self.ctx = ctx; Ctx.cur = ctx
        symrandom.reset(); loader.GENERIC.clear(); loader.LOOPS.clear(); loader.PRINTED.clear()
    # ---- inputs
    def dim(self, name, lo=1, hi=3, conc=None):
        v = var(name, 'I')
        if lo >= 1: POSDIM.add(v); ir.sign_reset()
        self.ctx.assume(le(const(lo, 'I'), v)) if lo > 1 else None
        if lo == 0: self.ctx.assume(le(const(0, 'I'), v))
        return Sc(v)
    def int(self, name, lo=0, hi=9):
        v = var(name, 'I')
        if lo is not None and lo >= 0: SIGNFACT[v] = '+' if lo > 0 else '0+'; ir.sign_reset()
        if lo is not None: self.ctx.assume(le(const(lo, 'I'), v))
        return Sc(v)
    def real(self, name, pos=False, nonneg=False, lo=-2., hi=2.):
        v = var(name, 'R')
        if pos or nonneg: SIGNFACT[v] = '+' if pos else '0+'; ir.sign_reset()
        return Sc(v)
    def array(self, name, shape, pos=False, nonneg=False, kind='f', lo=-2., hi=2., finite=True):
        exts = symnp.shape_t(tuple(shape))
        if pos or nonneg: SIGNFACT[name] = '+' if pos else '0+'; ir.sign_reset()
        return Arr.make(exts, lambda v: app(name, v, {'f': 'R', 'i': 'I', 'b': 'B'}[kind]), kind)
    def mask(self, name, M, mode='any'):
        M = symnp.dimt(M)
        if mode == 'full': return Arr.make((M,), lambda v: TRUE, 'b')
        m = Arr.make((M,), lambda v: app(name, v, 'B'), 'b')
        v = fresh('i', 'I', M); g = ((v,), (M,), m.at((v,)))
        K = wh_K(*g)
        if mode == 'none': 
            raise Unsupported('mask none')
        if mode in ('partial', 'some'): self.ctx.assume(le(const(1, 'I'), K))
        if mode == 'partial': self.ctx.assume(lt(K, M))
        return m
    def active(self, mask): return Active(self, mask)
    def objective(self, dd=1, name='Fobj', conv='3D'): return SymObjective(name, dd, conv)
    def models(self, n, shapes, out=1, own="own"): return SymModels(self, n, dict(shapes), out, own)
    def tensor(self, a): return symnp.asarray(a).copy()
    def vecmap(self, dd=1, name='Gmap'): return SymVecMap(name, dd)
    def sampler(self, name='xi'): return SymSampler(name)
    def const_array(self, x): return symnp.asarray(x)
    def normal_density(self, mean, cov, X):
        """value of scipy.stats.multivariate_normal(mean, cov).pdf at the point X (uninterpreted)"""
        import symrandom
        return symrandom.multivariate_normal_pdf(mean, cov).pdf(self.vector(wrap(symnp.asarray(mean).exts[0]), X))
    def specials(self, name, shape):
        """array whose elements are arbitrary reals, NaN or +-infinity (two boolean selectors per element)"""
        exts = symnp.shape_t(tuple(shape))
        def body(v):
            r = app(name, v, 'R')
            return ite(app(name + '_isnan', v, 'B'), NAN, ite(app(name + '_ispinf', v, 'B'), INF, ite(app(name + '_isninf', v, 'B'), neg(INF), r)))
        return Arr.make(exts, body, 'f')
    # ---- functions
    def at(self, A, *idx):
        A = symnp.asarray(A)
        if len(idx) != A.ndim: raise Unsupported('rank mismatch in contract: %d vs %d' % (len(idx), A.ndim))
        return wrapx(A.at(tuple(num(lift(i)) for i in idx)))
    def snap(self, A): return symnp.asarray(A).copy()
    def shape(self, A): return tuple(symnp.asarray(A).shape)
    def exp(self, x): return wrapx(fn('exp', lift(x)))
    def log(self, x): return wrapx(fn('log', lift(x)))
    def sqrt(self, x): return wrapx(fn('sqrt', lift(x)))
    def tanh(self, x): return wrapx(fn('tanh', lift(x)))
    def sin(self, x): return wrapx(fn('sin', lift(x)))
    def cos(self, x): return wrapx(fn('cos', lift(x)))
    def arctan2(self, y, x): return wrapx(fn('arctan2', toreal(num(lift(y))), toreal(num(lift(x)))))
    def pow(self, x, p): return wrapx(core.spow(lift(x), lift(p)))
    def abs(self, x): return wrapx(core.sabs(lift(x)))
    def sign(self, x): return wrapx(fn('sign', lift(x)))
    pi = Sc(PI); inf = Sc(INF); nan = Sc(NAN); big = Sc(BIG)
    def num(self, x): return wrapx(num(lift(x)))
    def div(self, a, b): return wrapx(div(lift(a), lift(b)))
    def ite(self, c, a, b):
        a = a() if callable(a) else a; b = b() if callable(b) else b
        return wrapx(ite(boolify(lift(c)), lift(a), lift(b)))
    def and_(self, *xs): return wrapx(and_(*[lift(x) for x in xs]))
    def or_(self, *xs): return wrapx(or_(*[lift(x) for x in xs]))
    def not_(self, x): return wrapx(not_(boolify(lift(x))))
    def implies(self, a, b):
        b = b() if callable(b) else b
        return wrapx(implies(boolify(lift(a)), boolify(lift(b))))
    def iff(self, a, b): return wrapx(iff(boolify(lift(a)), boolify(lift(b))))
    def near(self, a, b, slack): return self.eq(a, b)
    def eq(self, a, b):
        a, b = lift(a), lift(b)
        if a.sort == 'B' and b.sort == 'B': return wrapx(iff(a, b))
        return wrapx(or_(eq(num(a), num(b)), and_(symnp.tnan(a), symnp.tnan(b))))
    ieq = eq
    def le(self, a, b): return wrapx(le(lift(a), lift(b)))
    def lt(self, a, b): return wrapx(lt(lift(a), lift(b)))
    def isnan(self, a): return wrapx(symnp.tnan(lift(a)))
    def isinf(self, a): return wrapx(symnp.tinf(lift(a)))
    def min(self, a, b): return wrapx(ite(le(lift(a), lift(b)), num(lift(a)), num(lift(b))))
    def max(self, a, b): return wrapx(ite(le(lift(b), lift(a)), num(lift(a)), num(lift(b))))
    def when(self, c, f): return self.implies(c, f())
    def sel(self, c, f, g): return self.ite(c, f(), g())
    def _vars(self, exts): return symnp.ivars([symnp.dimt(e) for e in exts])
    def _vars0(self, exts):
        """universal index variables; the only index of a dimension of extent 1 is 0"""
        es = [symnp.dimt(e) for e in exts]
        vs = symnp.ivars(es)
        one = lambda e: ir.const_ext(e) == 1 or self.ctx.known.get(eq(e, const(1, 'I'))) is True
        return es, [const(0, 'I') if one(e) else v for v, e in zip(vs, es)]
    def Sum(self, exts, f):
        vs = self._vars(exts)
        t = num(lift(f(*[Sc(v) for v in vs])))
        for v, e in reversed(list(zip(vs, exts))): t = mk_sum(v, symnp.dimt(e), t)
        return wrapx(t)
    def Max(self, ext, f):
        v, = self._vars((ext,)); return wrapx(mk_max(v, symnp.dimt(ext), num(lift(f(Sc(v))))))
    def Min(self, ext, f):
        v, = self._vars((ext,)); return wrapx(mk_min(v, symnp.dimt(ext), num(lift(f(Sc(v))))))
    def Argmin(self, ext, f):
        v, = self._vars((ext,)); return wrapx(mk_argmin(v, symnp.dimt(ext), num(lift(f(Sc(v))))))
    def All(self, exts, f):
        vs = self._vars(exts)
        t = boolify(lift(f(*[Sc(v) for v in vs])))
        for v, e in reversed(list(zip(vs, exts))): t = mk_all([v], [symnp.dimt(e)], t)
        return wrapx(t)
    def occurs(self, ext, f, target):
        """target is one of f(0..ext-1)"""
        v, = self._vars((ext,))
        return wrapx(symnp._member(num(lift(f(Sc(v)))), v, symnp.dimt(ext), num(lift(target))))
    def Any(self, exts, f): return self.not_(self.All(exts, lambda *i: self.not_(f(*i))))
    def place(self, A, target):
        """a position of the target in the index array A (meaningful where it occurs)"""
        A = symnp.asarray(A); v, = self._vars((Sc(A.exts[0]),))
        return wrapx(symnp.invert(num(A.at((v,))), v, A.exts[0], num(lift(target)))[1])
    # ---- assumptions and obligations
    def assume(self, c): self.ctx.assume(boolify(lift(c)))
    def assume_forall(self, exts, f):
        es, vs = self._vars0(exts)
        b = boolify(lift(f(*[Sc(v) for v in vs])))
        kv = [(v, e) for v, e in zip(vs, es) if v.op == 'var']
        if kv: self.ctx.assume_forall([v for v, e in kv], [e for v, e in kv], b)
        else: self.ctx.assume(b)
    def _ok(self, n): return len(self.obl) > n and all(o.status == 'proved' for o in self.obl[n:])
    def lemma_forall(self, name, exts, f, ghost=None):
        """proof rule: f at arbitrary indices (after the ghost steps there)  =>  f at all indices (ghost step); returns the instantiation"""
        n = len(self.obl)
        i = [self.index(e) for e in exts]
        if ghost is not None: ghost(*i)
        self.check(name, f(*i))
        if self._ok(n): return self.hyp(exts, f)
        return lambda *i: None
    def eig(self, n, f):
        """eigenvalues and eigenvectors V(row, pair) of the symmetric matrix f"""
        w, V = symnp.eigh(self.matrix(n, n, f))
        return (lambda p: self.at(w, p)), (lambda a, p: self.at(V, a, p))
    def eig_axiom(self, n, f, p):
        """axiom of the eigendecomposition of the symmetric matrix f: eigenvalue_p = v_p^T f v_p (f is checked to be symmetric)"""
        lam, V = self.eig(n, f)
        m = len(self.obl)
        self.forall('matrix is symmetric', (n, n), lambda a, b: self.eq(f(a, b), f(b, a)))
        if self._ok(m): self.ctx.assume(prove.eq_raw(num(lift(lam(p))), num(lift(self.Sum((n, n), lambda a, b: V(a, p) * f(a, b) * V(b, p))))))
    def lemma_sum(self, name, exts, f, ghost=None):
        """proof rule: f >= 0 at an arbitrary index (after the ghost steps there)  =>  Sum f >= 0 (ghost step)"""
        n = len(self.obl)
        if ghost is None: self.forall(name, exts, lambda *i: self.le(0, f(*i)))
        else:
            i = [self.index(e) for e in exts]
            ghost(*i); self.check(name, self.le(0, f(*i)))
        if self._ok(n): self.ctx.assume(prove.ge_raw(num(lift(self.Sum(exts, f)))))
    def lemma_sum_eq(self, name, exts, f, g):
        """proof rule: f = g at an arbitrary index  =>  Sum f = Sum g (ghost step)"""
        n = len(self.obl)
        self.forall(name, exts, lambda *i: self.eq(f(*i), g(*i)))
        if self._ok(n): self.ctx.assume(prove.eq_raw(num(lift(self.Sum(exts, f))), num(lift(self.Sum(exts, g)))))
    def exp_axiom(self, t):
        """sign axiom of exp at the argument t (exp of a sum is normalised to a product, so the instance is given explicitly)"""
        t = toreal(num(lift(t))); e = fn('exp', t); one = const(1, 'R'); z = const(0, 'R')
        self.ctx.assume(prove.iff_raw(le(t, z), prove.le_raw(e, one))); self.ctx.assume(prove.iff_raw(le(z, t), prove.le_raw(one, e)))
    def log_axiom(self, a, b):
        """log(a/b) <= a/b - 1 for positive a, b"""
        a, b = toreal(num(lift(a))), toreal(num(lift(b))); z = const(0, 'R')
        self.ctx.assume(implies(and_(lt(z, a), lt(z, b)), prove.le_raw(sub(fn('log', a), fn('log', b)), sub(div(a, b), const(1, 'R')))))
    def lemma(self, name, c):
        """ghost assertion: proved here, available afterwards"""
        n = len(self.obl)
        self.check(name, c)
        if self._ok(n): self.ctx.assume(boolify(lift(c)))
    def forall(self, name, exts, f):
        es, vs = self._vars0(exts)
        if len(es) == 1 and (ir.const_ext(es[0]) or 9) in (2, 3):
            for i in range(ir.const_ext(es[0])):
                r = f(i)
                for nm, c in (r if isinstance(r, list) else [('', r)]): self._oblige((name + '.' + nm).rstrip('.'), lift(c), [])
            return
        extra = [and_(le(const(0, 'I'), v), lt(v, e)) for v, e in zip(vs, es) if v.op == 'var']
        r = f(*[Sc(v) for v in vs])
        if isinstance(r, list):
            for nm, c in r: self._oblige('%s.%s' % (name, nm), lift(c), extra)
        else: self._oblige(name, lift(r), extra)
    def check(self, name, c): self._oblige(name, lift(c), [])
    def check_shape(self, name, A, exts):
        A = symnp.asarray(A)
        if A.ndim != len(exts):
            self._record(name, 'refuted', 'normaliser', 0., 'rank %d instead of %d' % (A.ndim, len(exts))); return
        self._oblige(name, and_(*[eq(a, symnp.dimt(e)) for a, e in zip(A.exts, exts)]), [])
    def unsupported(self, why): raise Unsupported(why)
    def fail(self, name, why): self._record(name, 'refuted', 'normaliser', 0., why)
    def _record(self, name, status, backend, t, info=''):
        self.obl.append(Obligation(name, status, backend, t, info, ''.join('TF'[0 if d else 1] for d, _ in self.ctx.trace)))
    def _oblige(self, name, goal, extra, split=True):
        t0 = time.time()
        C = self.ctx
        goal = boolify(goal)
        if goal is TRUE: return self._record(name, 'proved', 'normaliser', 0.)
        try: 
            kn = dict(C.known)
            g = core.simplify_under(goal, kn, C.facts)
        except Unsupported as e:
            return self._record(name, 'unknown', 'engine', time.time() - t0, str(e))
        if g is TRUE: return self._record(name, 'proved', 'normaliser', time.time() - t0)
        parts = list(g.args) if g.op == 'and' else [g]
        worst = None
        for p in parts:
            st, be, info = self._prove(p, extra)
            if worst is None or {'proved': 0, 'unknown': 1, 'refuted': 2}[st] > {'proved': 0, 'unknown': 1, 'refuted': 2}[worst[0]]: worst = (st, be, info)
        self._record(name, worst[0], worst[1], time.time() - t0, worst[2])
    def _prove(self, g, extra):
        C = self.ctx
        left = self.t_end - time.time()
        if left < 1: return 'unknown', 'engine', 'time budget of this contract is used up'
        # equality of reals: multiply out parenthesised denominators first
        try:
            r = prove.check_sat(C.facts + extra + [not_(g)], C.univ, timeout=int(min(prove.TIMEOUT[0], left * 1000)))
        except (Unsupported, RecursionError) as e: return 'unknown', 'engine', repr(e)[:300]
        if r.status == 'unsat': return 'proved', 'z3', ''
        g2 = self._case(g, extra)
        if g2 is not None: return g2
        if r.status == 'sat':
            r2 = prove.check_sat(C.facts + extra + [not_(g)], C.univ, timeout=int(min(prove.TIMEOUT[0], left * 1000)), want_model=True)
            m = r2.model if r2.status == 'sat' else {}
            try:
                import valuation
                st, val = valuation.search(g, list(C.facts) + extra, C.univ, prove.APPAX, budget=min(5., max(left - 1., 1.)))
            except (Unsupported, RecursionError, ImportError): st, val = 'none', None
            # the solver treats sums and transcendental functions as opaque: its counterexample counts unless the obligation holds for all valuations tried
            if st == 'true': return 'unknown', 'z3', 'obligation: %s\nnot provable, but true for every valuation tried' % show(g, 9)[:2000]
            if st == 'false': m = 'confirmed by evaluating the obligation: ' + valuation.describe(val); return 'refuted', 'z3', 'obligation: %s\nmodel: %s' % (show(g, 9)[:3000], m)
            return 'refuted', 'z3', 'obligation: %s\nmodel: %s' % (show(g, 9)[:3000], {k: v for k, v in list((m or {}).items())[:40]})
        return 'unknown', 'z3', 'obligation: %s\n%s' % (show(g, 9)[:2000], r.reason)
    def _pointwise(self, p, extra, depth):
        """proof rule: a linear combination of sums over the same ranges vanishes if its summands cancel at an arbitrary index"""
        if depth >= 5 or time.time() > self.t_end: return False
        groups = {}; rest = {}
        for m, c in items(p):
            sums = [a for a, e in m if a.op == 'bind' and a.args[0] == 'sum' and e == 1]
            if len(sums) != 1: rest[m] = c; continue
            a = sums[0]; vs, exts, body = a.args[2][0]
            groups.setdefault(exts, []).append((a, frompoly({tuple(x for x in m if x[0] is not a): c}, 'R')))
        if not groups or any(len(x) < 2 for x in groups.values()): return False
        if rest:
            r = eq(frompoly(rest, 'R'), const(0, 'R'))
            if r is not TRUE and self._prove(r, extra)[0] != 'proved': return False
        for exts, l in groups.items():
            fr = tuple(fresh('b', 'I', e) for e in exts)
            tot = const(0, 'R')
            for a, c in l: tot = add(tot, mul(c, subst(a.args[2][0][2], dict(zip(a.args[2][0][0], fr)))))
            rng = [and_(prove.ge_raw(v), prove.lt_raw(v, e)) for v, e in zip(fr, exts)]
            g = eq(tot, const(0, 'R'))
            if g is TRUE: continue
            try: r = prove.check_sat(self.ctx.facts + extra + rng + [not_(g)], self.ctx.univ, timeout=2500)
            except (Unsupported, RecursionError): return False
            if r.status == 'unsat': continue
            x = self._case(g, extra + rng, depth + 2)
            if x is None or x[0] != 'proved': return False
        return True
    def _case(self, g, extra, depth=0):
        """denominator clearing, and case distinction on the conditions occurring in an equation"""
        C = self.ctx
        if g.op == 'eq' and g.args[0].sort == 'R':
            try:
                p = prove.clear_denominators(g.args[0])
                if p.op == 'const' and p.args[0] == 0: return 'proved', 'normaliser', ''
                if p is not g.args[0]:
                    r = prove.check_sat(C.facts + extra + [not_(eq(p, const(0, 'R')))], C.univ)
                    if r.status == 'unsat': return 'proved', 'z3', ''
            except (Unsupported, RecursionError): pass
            if self._pointwise(g.args[0], extra, depth): return 'proved', 'z3', ''
        if depth >= 7 or time.time() > self.t_end: return None
        conds = []
        for s in subterms(g):
            if s.op == 'ind' and not prove.isbound(s): conds.append(s.args[0])
        bs = [c for c in conds]
        if not bs and g.op in ('and', 'or'):
            # atoms of the propositional skeleton other than equations of reals
            def atoms(t):
                if t.op in ('and', 'or', 'not'): return [a for x in t.args for a in atoms(x)]
                return [t] if t.op != 'eq' and t.sort == 'B' else []
            bs = atoms(g)
        if not bs: return None
        c = min(bs, key=lambda t: (t.height, t.id))
        worst = 'proved'
        for lit in (c, not_(c)):
            kn = dict(C.known); kn.update(core.literals(C.facts)); kn[lit] = True; kn[not_(lit)] = False
            g2 = core.simplify_under(g, kn, C.facts + extra + [lit])
            if g2 is TRUE: continue
            r = prove.check_sat(C.facts + extra + [lit, not_(g2)], C.univ, timeout=1500, lin=True)
            if r.status == 'unsat': continue
            x = self._case(g2, extra + [lit], depth + 1)
            if x is None or x[0] != 'proved':
                r = prove.check_sat(C.facts + extra + [lit, not_(g2)], C.univ, timeout=4000)
                if r.status == 'unsat': continue
            if x is None or x[0] != 'proved': return x
        return 'proved', 'z3', ''
    # ---- linear algebra in specifications
    def matrix(self, n, m, f):
        """n x m array with entries f(i, j)"""
        return Arr.make((symnp.dimt(n), symnp.dimt(m)), lambda v: toreal(num(lift(f(Sc(v[0]), Sc(v[1]))))), 'f')
    def vector(self, n, f): return Arr.make((symnp.dimt(n),), lambda v: toreal(num(lift(f(Sc(v[0]))))), 'f')
    def build(self, shape, f, kind='f'):
        """array with entries f(*index)"""
        conv = {'f': lambda t: toreal(num(t)), 'i': num, 'b': boolify}[kind]
        return Arr.make(symnp.shape_t(tuple(shape)), lambda v: conv(lift(f(*[Sc(x) for x in v]))), kind)
    def index(self, ext):
        """an arbitrary index in [0, ext)"""
        v, = self._vars((ext,))
        self.ctx.assume(and_(prove.ge_raw(v), prove.lt_raw(v, symnp.dimt(ext))))
        return Sc(v)
    def msqrt(self, n, f):
        """positive semidefinite square root of the symmetric matrix f, negative eigenvalues treated as zero"""
        A = self.matrix(n, n, f)
        w, V = symnp.eigh(A)
        return lambda i, j: self.Sum((n,), lambda p: self.at(V, i, p) * self.sqrt(self.max(self.at(w, p), 0)) * self.at(V, j, p))
    def linsolve(self, n, fA, fb):
        z = symnp.solve(self.matrix(n, n, fA), self.vector(n, fb))
        return lambda i: self.at(z, i)
    def polar(self, n, p, f):
        """polar factor U V^T of the n x p matrix f (the projection onto the Stiefel manifold)"""
        U, _, Vh = symnp.svd(self.matrix(n, p, f), full_matrices=False)
        return lambda i, j: self.at(symnp.matmul(U, Vh), i, j)
    def orthonormal(self, name, batch, n, p):
        """arbitrary n x p matrices with orthonormal columns (unknown symbols with exactly this property)"""
        return symnp.svd(self.array(name, tuple(batch) + (n, p)), full_matrices=False)[0]
    def hyp(self, exts, f):
        """assumption forall i: f(i), used by explicit instances: the returned function adds the instance at the given indices"""
        def inst(*i):
            g = [and_(le(const(0, 'I'), lift(a)), lt(lift(a), symnp.dimt(e))) for a, e in zip(i, exts)]
            self.ctx.assume(implies(and_(*g), boolify(lift(f(*i)))))
        return inst
    def use_solve(self, t, i, sel=None):
        """assumed contract of numpy.linalg.solve: the i-th equation of every linear system whose solution occurs in t"""
        n = 0
        for s in prove.all_subterms(lift(t)):
            if s.op == 'bind' and s.args[0] == 'fun' and s.args[1] == 'solve' and not prove.isbound(s):
                (vi, ve, A), (bi, be, b) = s.args[2]
                j = fresh('b', 'I', ve[1]); ii = num(lift(i))
                lhs = mk_sum(j, ve[1], mul(subst(A, {vi[0]: ii, vi[1]: j}), mk_fun('solve', s.args[2], (j,))))
                self.ctx.assume(prove.eq_raw(lhs, subst(b, {bi[0]: ii}))); n += 1
        return n
    def cover(self):
        """reachability of the point reached now (guards against contradictory preconditions)"""
        r = prove.check_sat(list(self.ctx.facts), self.ctx.univ, timeout=3000)
        if r.status != 'unsat': self.reach += 1
        else: raise PathEnd()
    # ---- calls that must raise
    def raises(self, name, fn, exc):
        try: fn()
        except PathEnd: raise
        except Unsupported: raise
        except exc: return self._record(name, 'proved', 'execution', 0.)
        except Exception as e: return self._record(name, 'refuted', 'execution', 0., 'raised %r instead' % (e,))
        self._record(name, 'refuted', 'execution', 0., 'no exception raised')
    def mod(self, name):
        import importlib
        return importlib.import_module(name)
    def hist(self, lo, hi): return 0
    def choice(self, xs): return xs[0]
    def draws(self): return symrandom.State.log
    def loop(self, name, c): loader.LOOPS[name] = c
    def tofloat(self, x): return x

def repo_frame(e):
    """did the exception arise below a frame of the repository?"""
    last = None
    for f, ln in traceback.walk_tb(e.__traceback__):
        fnm = f.f_code.co_filename
        if os.sep + 'contracts' + os.sep in fnm: last = None          # raised by a callback of the contract
        if fnm.startswith(loader.REPO + os.sep): last = '%s:%d (%s)' % (os.path.relpath(fnm, loader.REPO), ln, f.f_code.co_qualname)
    return last

ENGINE = os.path.dirname(os.path.abspath(__file__)) + os.sep
def engine_gap(e):
    """exceptions that show a feature missing in the assumed library contracts rather than a fault of the code: they leave the
    contract undecided (a genuine fault of this kind is raised by the real code as well and reported by the concrete evaluation)"""
    fs = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
    inner = bool(fs) and not fs[-1].startswith(loader.REPO + os.sep)
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        return o is not None and not str(getattr(type(o), '__module__', '')).startswith('cbx') and not str(getattr(o, '__name__', '')).startswith('cbx')
    if isinstance(e, TypeError):
        if 'NoneType' in str(e): return False
        return inner or any(p in str(e) for p in ('unexpected keyword', 'positional argument', 'required keyword', 'multiple values'))
    return inner and isinstance(e, (KeyError, AssertionError, NotImplementedError)) and fs[-1].startswith(ENGINE)

MAXPATHS = 400
def explore(con, ci, budget, tier):
    """execute a contract along all control-flow paths"""
    k = SymKit(budget, tier)
    res = dict(label=con.label(ci), paths=0, undecided=[], infeasible=0)
    stack = [[]]
    t0 = time.time()
    loader.PARALLEL.clear()
    np_err = None
    while stack:
        prefix = stack.pop()
        if time.time() > k.t_end:
            res['undecided'].append('time budget used up after %d paths' % res['paths']); break
        if res['paths'] >= MAXPATHS:
            res['undecided'].append('path limit'); break
        ctx = Ctx(prefix)
        k.begin(ctx)
        sys.setprofile(loader.profile)
        try:
            con.fn(k, **con.configs[ci])
            sys.setprofile(None)
            res['paths'] += 1
            r = prove.check_sat(list(ctx.facts), ctx.univ, timeout=2000)
            if r.status == 'unsat': res['infeasible'] += 1
            else: k.reach += 1
        except loader.NeedParallel as e:
            sys.setprofile(None)
            if e.args[0] in loader.PARALLEL: raise EngineError('parallel loop rule')
            # start again with the rule for loops that store into arrays
            loader.PARALLEL.add(e.args[0]); k.restart(); stack = [[]]
            res.update(paths=0, undecided=[], infeasible=0); continue
        except PathEnd:
            sys.setprofile(None)
            if ctx.loopdepth: res['undecided'].append('a path ends inside a loop over a symbolic range'); res['paths'] += 1
        except (Unsupported, EngineError) as e:
            sys.setprofile(None)
            res['undecided'].append('%s at %s' % (str(e)[:300], repo_frame(e)))
            res['paths'] += 1
        except RecursionError as e:
            sys.setprofile(None); res['undecided'].append('recursion'); res['paths'] += 1
        except Exception as e:
            sys.setprofile(None)
            fr = repo_frame(e)
            if ctx.loopdepth:
                res['undecided'].append('exception inside a loop over a symbolic range: %r at %s' % (e, fr))
            feas = prove.check_sat(list(ctx.facts), ctx.univ, timeout=3000).status if not ctx.loopdepth else 'unsat'
            if feas == 'unsat': pass
            elif fr is not None and engine_gap(e):
                res['undecided'].append('unsupported: %r at %s' % (e, fr))
            elif fr is None:
                res['undecided'].append('contract harness: %r %s' % (e, traceback.format_exc()[-600:]))
            else:
                k._record('no exception', 'refuted', 'execution', 0., '%r raised at %s' % (e, fr))
            res['paths'] += 1
        finally: sys.setprofile(None)
        # alternatives
        tr = ctx.trace
        for i in range(len(tr) - 1, len(prefix) - 1, -1):
            d, op = tr[i]
            if op: stack.append([(x, False) for x, _ in tr[:i]] + [(not d, False)])
    res['obl'] = [dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 3), info=o.info, path=o.path) for o in k.obl]
    res['reach'] = k.reach
    res['wall'] = round(time.time() - t0, 2)
    res['solver'] = dict(prove.STATS)
    res['executed'] = sorted('%s::%s' % x for x in loader.EXECUTED)
    return res
