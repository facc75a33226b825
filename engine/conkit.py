"""Concrete kit: the same contracts evaluated on the real code with real numpy, on sampled small inputs."""
import sys, os, math, time, traceback, json, itertools, io, contextlib
import numpy as np
from api import Discard, Violated
REPO = os.environ.get('VERIF_REPO', '/repo')

class ConObjective:
    def __init__(self, rng, dd, name):
        self.dd, self.name = dd, name
        self.c = rng.uniform(-1, 1); self.w = rng.uniform(0.3, 1.7); self.b = rng.uniform(-2, 2) if rng.random() < .8 else float(rng.choice([-3000., 3000.]))
        if rng.random() < .12: self.w *= 1e3           # energies of very different size
        self.view = type(self) is ConObjective and dd > 0 and rng.random() < .12       # the first coordinate, as a view of the argument
        self.calls = []; self.hooks = []
    def _val(self, x):
        if self.view: return np.array(x[(Ellipsis,) + (0,) * self.dd])
        x = np.ascontiguousarray(x) if np.ndim(x) else x          # the same rounding for every memory layout
        n = int(np.prod(x.shape[x.ndim - self.dd:])) if self.dd else 1
        y = x.reshape(x.shape[:x.ndim - self.dd] + (n,)) if self.dd else x[..., None]
        a = np.arange(1, n + 1)
        return self.w * ((y - self.c / a) ** 2 * (1 + 0.1 * a)).sum(-1) + 0.5 * np.sin(3 * y * a).sum(-1) + self.b
    def __call__(self, x):
        is_t = type(x).__module__.startswith('torch')
        xa = x.detach().cpu().numpy() if is_t else np.asarray(x)
        self.calls.append(np.array(xa, copy=True))
        if self.view: return x[(Ellipsis,) + (0,) * self.dd]
        with np.errstate(all='ignore'): r = self._val(xa.astype(float))
        if is_t:
            import torch
            return torch.as_tensor(r)
        return r
    def at(self, X, *idx): return float(self._val(np.asarray(X, float)[tuple(idx)]))
    def atfn(self, dims, fn):
        x = np.empty(tuple(dims))
        for ix in itertools.product(*[range(int(n)) for n in dims]): x[ix] = fn(*ix)
        return float(self._val(x))
class ConVecMap(ConObjective):
    def _val(self, x):
        x = np.ascontiguousarray(x)
        n = int(np.prod(x.shape[x.ndim - self.dd:]))
        y = x.reshape(x.shape[:x.ndim - self.dd] + (n,))
        m = y.mean(-1, keepdims=True)
        return (self.w * y + np.sin(self.c * y + m) + self.c * m * np.arange(1, n + 1)).reshape(x.shape)
    def at(self, X, *idx):
        nb = len(idx) - self.dd
        return float(self._val(np.asarray(X, float)[tuple(idx[:nb])])[tuple(idx[nb:])])
class ConModels:
    """real torch modules with the given parameter shapes (names with dots live in submodules)"""
    def __init__(self, k, n, shapes, out, own):
        import torch
        self.shapes = {q: tuple(int(e) for e in s) for q, s in shapes.items()}; self.o = int(out)
        names = list(self.shapes)
        def forward(mod, x):
            s = 0.
            for c, q in enumerate(names):
                p = mod
                for part in q.split('.'): p = getattr(p, part)
                p = p.reshape(-1)
                s = s + (p * torch.cos(torch.arange(p.numel(), dtype=p.dtype) * .7 + c)).sum() + .3 * (p * p).sum() / (c + 1)
            t = (x * torch.arange(1, x.shape[-1] + 1, dtype=x.dtype)).sum(-1, keepdim=True)
            return torch.sin(t * (1 + .2 * torch.arange(self.o, dtype=x.dtype)) + s) + s * t
        C = type('Net', (torch.nn.Module,), dict(forward=forward))
        def make():
            m = C()
            for q in names:
                *path, last = q.split('.')
                o = m
                for part in path:
                    if not hasattr(o, part): setattr(o, part, torch.nn.Module())
                    o = getattr(o, part)
                o.register_parameter(last, torch.nn.Parameter(torch.tensor(k.rng.normal(size=self.shapes[q]), dtype=torch.float64)))
            return m
        self.mods = [make() for _ in range(1 if n is None else int(n))]
        self.arg = self.mods[0] if n is None else self.mods
        self.single = n is None
        self.init = [{q: p.detach().numpy().copy() for q, p in m.named_parameters()} for m in self.mods]
    def own(self, q, *i):
        return float(self.init[0][q][tuple(i)]) if self.single else float(self.init[i[0]][q][tuple(i[1:])])
    def value(self, params, X, *ix):
        x = np.asarray(X, float)[tuple(ix[:-1])]
        s = 0.
        for c, q in enumerate(self.shapes):
            sh = self.shapes[q]
            p = np.array([float(params[q](*i)) for i in itertools.product(*[range(e) for e in sh])]) if q in params else self.init[0][q].reshape(-1)
            s += (p * np.cos(np.arange(p.size) * .7 + c)).sum() + .3 * (p * p).sum() / (c + 1)
        t = (x * np.arange(1, len(x) + 1)).sum()
        return float(np.sin(t * (1 + .2 * ix[-1]) + s) + s * t)
class ConSampler:
    def __init__(self, rng): self.rng = rng; self.samples = []
    def __call__(self, size=None):
        r = self.rng.standard_normal(size if size is None else tuple(int(s) for s in size))
        self.samples.append(np.array(r, copy=True)); return r
class ConActive:
    def __init__(self, mask):
        self.mask = np.asarray(mask); self.idx = np.where(self.mask)[0]; self.K = len(self.idx)
    def run(self, p): return int(self.idx[p])
    def pos(self, i): 
        w = np.where(self.idx == i)[0]
        return int(w[0]) if len(w) else -1
    def has(self, i): return bool(self.mask[i])

def source_sizes(root=None):
    """integer literals of the code under test: sizes and step numbers at which it may branch (used to choose inputs only)"""
    import ast, glob
    root = root or os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'cbx')
    s = set()
    for f in sorted(glob.glob(root + '/**/*.py', recursive=True)):
        if os.path.basename(f) in ('plotting.py', 'objectives.py'): continue
        try: tree = ast.parse(open(f).read())
        except Exception: continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and 4 < n.value <= 5000 and n.value == int(n.value): s.add(int(n.value))
    return sorted(s)
SIZES = source_sizes()
def big_sizes(limit):
    return sorted({6, 7, 8, 9, 12, 17, 33} | {c + e for c in SIZES for e in (-1, 0, 1) if 4 < c + e <= limit})

class ConKit:
    sym = False
    mild = False           # no inputs of very different size
    RT, AT = 1e-7, 1e-9
    def __init__(self, seed, trial, tier='quick'):
        self.rng = np.random.default_rng([seed, trial, 77]); self.trial = trial; self.tier = tier
        np.random.seed((seed * 7919 + trial) % (2**31))
        self.inputs = {}; self.nchecks = 0
        self.nontrivial = False
        # now and then one size is far outside the usual range
        self.bigdim = None
        if trial % 12 == 7: self.bigdim = ('M', 'N', 'd')[(trial // 12 + seed) % 3]
    def _in(self, name, v):
        self.inputs[name] = v; return v
    def dim(self, name, lo=1, hi=3, conc=None):
        if conc is not None: return self._in(name, int(self.rng.choice(conc)))
        if name == self.bigdim and hi >= 3:
            return self._in(name, max(lo, int(self.rng.choice(big_sizes(40 if self.rng.random() < .7 else 130)))))
        return self._in(name, int(self.rng.integers(lo, hi + 1)))
    def int(self, name, lo=0, hi=9):
        if name[:2] in ('it', 'ev') and self.rng.random() < .2:     # step counters: also late ones
            if self.rng.random() < .3: return self._in(name, int(self.rng.choice(big_sizes(5001))))
            return self._in(name, int(self.rng.integers(hi, 300 * hi)))
        return self._in(name, int(self.rng.integers(lo if lo is not None else -hi, hi + 1)))
    def real(self, name, pos=False, nonneg=False, lo=-2., hi=2.):
        if pos: return self._in(name, float(self.rng.uniform(0.05, 2.)) if hi == 2. else float(self.rng.uniform(max(lo, 1e-3), hi)))
        if nonneg: return self._in(name, 0. if self.rng.random() < .2 else float(self.rng.uniform(0, max(hi, .1))))
        return self._in(name, float(self.rng.uniform(lo, hi)))
    def array(self, name, shape, pos=False, nonneg=False, kind='f', lo=-2., hi=2., finite=True):
        shape = tuple(int(s) for s in shape)
        if kind == 'i': a = self.rng.integers(0, 10, size=shape)
        elif kind == 'b': a = self.rng.random(shape) < .5
        elif pos: a = self.rng.uniform(.05, 2., size=shape)
        elif nonneg: a = self.rng.uniform(0., 2., size=shape) * (self.rng.random(shape) < .8)
        else:
            a = self.rng.uniform(lo, hi, size=shape)
            if (lo, hi) == (-2., 2.) and shape and not self.mild and self.rng.random() < .1:       # rows of very different size
                a = a * self.rng.choice([1., 20., 300.], size=shape[:1] + (1,) * (len(shape) - 1))
        self._in(name, np.array(a, copy=True))
        return self.layout(a)
    def layout(self, a):
        """now and then another memory layout of the same values (column order, every second element, negative strides)"""
        r = self.rng.random()
        if a.ndim < 2 or r > .2: return a
        if r < .1: return np.asfortranarray(a)
        if r < .15:
            b = np.full(a.shape[:-1] + (2 * a.shape[-1],), np.nan if a.dtype.kind == 'f' else 0).astype(a.dtype); b[..., ::2] = a; return b[..., ::2]
        return a[::-1].copy()[::-1]
    def specials(self, name, shape):
        shape = tuple(int(s) for s in shape)
        a = self.rng.uniform(-3, 3, size=shape) * self.rng.choice([1., 1e3, 1e9, 1e16], size=shape)
        r = self.rng.random(shape)
        a[r < .15] = np.nan; a[(r >= .15) & (r < .25)] = np.inf; a[(r >= .25) & (r < .35)] = -np.inf
        self._in(name, np.array(a, copy=True)); return a
    def mask(self, name, M, mode='any'):
        M = int(M)
        if mode == 'full': m = np.ones(M, bool)
        elif mode == 'none': m = np.zeros(M, bool)
        else:
            m = self.rng.random(M) < .6
            if mode in ('partial', 'some') and not m.any(): m[self.rng.integers(M)] = True
            if mode == 'partial':
                if M < 2: raise Discard()
                if m.all(): m[self.rng.integers(M)] = False
        return self._in(name, m)
    def active(self, mask): return ConActive(mask)
    def objective(self, dd=1, name='Fobj', conv='3D'): return ConObjective(self.rng, dd, name)
    def models(self, n, shapes, out=1, own="own"): return ConModels(self, n, dict(shapes), out, own)
    def tensor(self, a):
        import torch
        return torch.as_tensor(np.array(a))
    def vecmap(self, dd=1, name='Gmap'): return ConVecMap(self.rng, dd, name)
    def sampler(self, name='xi'): return ConSampler(self.rng)
    def const_array(self, x): return np.array(x)
    def normal_density(self, mean, cov, X):
        p = np.array([X(l) for l in range(len(mean))]) - mean
        return np.exp(-.5 * p @ np.linalg.solve(cov, p)) / np.sqrt((2 * np.pi)**len(mean) * np.linalg.det(cov))
    def at(self, A, *idx):
        if type(A).__module__.startswith('torch'): A = A.detach().cpu().numpy()
        A = np.asarray(A)
        if len(idx) != A.ndim: self._bad('rank', 'array of rank %d where rank %d is specified' % (A.ndim, len(idx)))
        for i, n in zip(idx, A.shape):
            if not (0 <= i < n): self._bad('index', 'array of shape %s has no entry %s' % (A.shape, idx))
        return A[tuple(idx)].item()
    def snap(self, A):
        if type(A).__module__.startswith('torch'): A = A.detach().cpu().numpy()
        return np.array(A, copy=True)
    def shape(self, A): return tuple(A.shape) if hasattr(A, 'shape') else np.shape(A)
    def _f(f):
        def g(self, *a):
            with np.errstate(all='ignore'): return float(f(*[np.float64(x) for x in a]))
        return g
    exp = _f(np.exp); log = _f(np.log); sqrt = _f(np.sqrt); tanh = _f(np.tanh); sin = _f(np.sin); cos = _f(np.cos)
    pow = _f(np.power); sign = _f(np.sign); arctan2 = _f(np.arctan2); div = _f(np.divide)
    def abs(self, x): return abs(x)
    pi = math.pi; inf = math.inf; nan = math.nan; big = float(np.finfo(float).max)
    def num(self, x): return float(x)
    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r
    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not x
    def implies(self, a, b):
        if not a: return True
        return bool(b() if callable(b) else b)
    def when(self, c, f): return bool(f()) if c else True
    def sel(self, c, f, g): return f() if c else g()
    def iff(self, a, b): return bool(a) == bool(b)
    def eq(self, a, b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)): return bool(a) == bool(b)
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= self.AT + self.RT * max(abs(a), abs(b))
    def near(self, a, b, slack):
        """equal up to the rounding error that the (badly conditioned) value inherits from its inputs"""
        return self.eq(a, b) or abs(float(a) - float(b)) <= slack()
    def ieq(self, a, b): return a == b or (a != a and b != b)
    def le(self, a, b): return bool(a <= b)
    def lt(self, a, b): return bool(a < b)
    def isnan(self, a): return a != a
    def isinf(self, a): return math.isinf(a)
    def min(self, a, b): return a if a <= b else b
    def max(self, a, b): return a if a >= b else b
    def _prod(self, exts): return itertools.product(*[range(int(e)) for e in exts])
    def Sum(self, exts, f): return math.fsum([float(v) for v in (f(*i) for i in self._prod(exts))]) if True else 0
    def Sum(self, exts, f):
        r = 0.
        for i in self._prod(exts): r = r + f(*i)
        return r
    def Max(self, ext, f): return max(f(i) for i in range(int(ext)))
    def Min(self, ext, f): return min(f(i) for i in range(int(ext)))
    def Argmin(self, ext, f):
        v = [f(i) for i in range(int(ext))]; return v.index(min(v))
    def All(self, exts, f): return all(bool(f(*i)) for i in self._prod(exts))
    def Any(self, exts, f): return any(bool(f(*i)) for i in self._prod(exts))
    def occurs(self, ext, f, target): return any(f(i) == target for i in range(int(ext)))
    def assume(self, c):
        if not c: raise Discard()
    def assume_forall(self, exts, f):
        if not self.All(exts, f): raise Discard()
    def _bad(self, name, why): raise Violated(name, why)
    def lemma_sum_eq(self, name, exts, f, g): pass
    def lemma_sum(self, name, exts, f): pass
    def lemma(self, name, c): pass
    def exp_axiom(self, t): pass
    def forall(self, name, exts, f):
        for i in self._prod(exts):
            r = f(*i)
            for nm, c in (r if isinstance(r, list) else [('', r)]):
                self.nchecks += 1; self.nontrivial = True
                if not c: self._bad('%s%s' % (name, '.' + nm if nm else ''), 'fails at index %s' % (i,))
    def check(self, name, c):
        self.nchecks += 1; self.nontrivial = True
        if not c: self._bad(name, 'is false')
    def check_shape(self, name, A, exts):
        self.nchecks += 1
        if tuple(self.shape(A)) != tuple(int(e) for e in exts): self._bad(name, 'shape %s instead of %s' % (self.shape(A), tuple(exts)))
    def fail(self, name, why): self._bad(name, why)
    def unsupported(self, why): raise Discard()
    def matrix(self, n, m, f): return np.array([[float(f(i, j)) for j in range(int(m))] for i in range(int(n))]).reshape(int(n), int(m))
    def vector(self, n, f): return np.array([float(f(i)) for i in range(int(n))])
    def build(self, shape, f, kind='f'):
        shape = tuple(int(s) for s in shape)
        a = np.empty(shape, {'f': float, 'i': int, 'b': bool}[kind])
        for ix in itertools.product(*[range(n) for n in shape]): a[ix] = f(*ix)
        return a
    def index(self, ext):
        if int(ext) == 0: raise Discard()
        return int(self.rng.integers(int(ext)))
    def msqrt(self, n, f):
        A = self.matrix(n, n, f)
        w, V = np.linalg.eigh((A + A.T) / 2)
        S = (V * np.sqrt(np.maximum(w, 0.))) @ V.T
        return lambda i, j: float(S[i, j])
    def lemma_forall(self, name, exts, f, ghost=None): return lambda *i: None
    def eig(self, n, f):
        A = self.matrix(n, n, f)
        w, V = np.linalg.eigh((A + A.T) / 2)
        return (lambda p: float(w[p])), (lambda a, p: float(V[a, p]))
    def eig_axiom(self, n, f, p): pass
    def linsolve(self, n, fA, fb):
        z = np.linalg.solve(self.matrix(n, n, fA), self.vector(n, fb))
        return lambda i: float(z[i])
    def polar(self, n, p, f):
        U, _, Vh = np.linalg.svd(self.matrix(n, p, f), full_matrices=False)
        R = U @ Vh
        return lambda i, j: float(R[i, j])
    def orthonormal(self, name, batch, n, p):
        return self._in(name, np.linalg.qr(self.rng.normal(size=tuple(int(b) for b in batch) + (int(n), int(p))))[0])
    def hyp(self, exts, f):
        self.assume_forall(exts, f)
        return lambda *i: None
    def use_solve(self, t, i, sel=None): return 0
    def cover(self): pass
    def raises(self, name, fn, exc):
        self.nchecks += 1
        try: fn()
        except exc: return
        except Exception as e: self._bad(name, 'raised %r instead' % (e,))
        self._bad(name, 'no exception raised')
    def mod(self, name):
        import importlib
        return importlib.import_module(name)
    def hist(self, lo, hi): return int(self.rng.integers(lo, hi + 1))
    def choice(self, xs): return xs[int(self.rng.integers(len(xs)))]
    def draws(self): return None
    def loop(self, name, c): pass
    def tofloat(self, x): return float(x)

def repo_frame(e):
    last = None
    for f, ln in traceback.walk_tb(e.__traceback__):
        fnm = os.path.abspath(f.f_code.co_filename)
        if os.sep + 'contracts' + os.sep in fnm: last = None          # raised by a callback of the contract
        if fnm.startswith(os.path.abspath(REPO) + os.sep): last = '%s:%d (%s)' % (os.path.relpath(fnm, REPO), ln, f.f_code.co_qualname)
    return last
def unusable(e):
    """the contract failed on the value the code returned (not on a name or signature that is no longer there)"""
    m = str(e)
    if isinstance(e, TypeError): return 'object is not callable' in m or 'object is not iterable' in m or 'unsupported operand' in m or 'bad operand' in m or 'cannot unpack' in m
    if isinstance(e, ValueError): return 'to unpack' in m or 'broadcast' in m or 'reshape' in m
    return isinstance(e, IndexError) and 'out of bounds' in m or isinstance(e, (ZeroDivisionError, OverflowError))
def jsonable(v):
    if isinstance(v, np.ndarray): return np.where(np.isfinite(v), v, 0).tolist() if v.dtype.kind == 'f' and False else [repr(float(x)) if isinstance(x, float) and not math.isfinite(x) else x for x in v.ravel().tolist()] if v.size < 200 else 'array%s' % (v.shape,)
    if isinstance(v, (np.integer,)): return int(v)
    if isinstance(v, (np.floating,)): return float(v)
    return v
class GiveUp(BaseException): pass
def _give_up(*a): raise GiveUp()
def run_one(con, ci, seed, trial, tier='quick'):
    """-> (status, detail): ok | discard | violated | harness"""
    k = ConKit(seed, trial, tier)
    out = io.StringIO()
    import signal
    if k.bigdim:          # an input of unusual size is given up when it takes too long
        signal.signal(signal.SIGALRM, _give_up); signal.setitimer(signal.ITIMER_REAL, 1.5 if tier == 'quick' else 10.)
    try:
        import warnings
        with np.errstate(all='ignore'), contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            con.fn(k, **con.configs[ci])
        return ('ok' if k.nontrivial or k.nchecks else 'trivial'), k, None
    except (Discard, GiveUp): return 'discard', k, None
    except Violated as e: return 'violated', k, 'ensures %s: %s' % (e.args[0], e.args[1])
    except Exception as e:
        fr = repo_frame(e)
        if fr is not None: return 'violated', k, 'no exception: %r raised at %s' % (e, fr)
        if unusable(e): return 'violated', k, 'a result cannot be used as specified: %r' % (e,)
        return 'harness', k, '%r %s' % (e, traceback.format_exc()[-800:])
    finally:
        if k.bigdim: signal.setitimer(signal.ITIMER_REAL, 0)
def run(con, ci, seed, trials, budget, tier='quick'):
    t0 = time.time()
    r = dict(label=con.label(ci), evaluations=0, discarded=0, checks=0, violation=None, harness=None, samples=[])
    seen = set()
    for t in range(trials):
        if time.time() - t0 > budget: break
        st, k, d = run_one(con, ci, seed, t, tier)
        if st == 'discard': r['discarded'] += 1; continue
        r['evaluations'] += 1; r['checks'] += k.nchecks
        inp = {n: jsonable(v) for n, v in k.inputs.items()}
        seen.add(json.dumps(inp, sort_keys=True, default=str))
        if len(r['samples']) < 1: r['samples'].append({'contract': con.label(ci), 'trial': t, 'inputs': inp})
        if st == 'violated':
            r['violation'] = dict(trial=t, detail=d, inputs=inp); break
        if st == 'harness':
            r['harness'] = d; break
    r['distinct'] = len(seen)
    r['wall'] = round(time.time() - t0, 2)
    return r
