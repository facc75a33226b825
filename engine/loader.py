"""Loads the real source of /repo/cbx over the symbolic array backend.

Every module is parsed from the current working tree on every run and executed unchanged, except for these mechanical
transformations (all of them preserve the meaning on ordinary values):
  * `while C: B`                      -> iteration of a loop driver, so that a loop contract (invariant, havoc) can be applied
  * `for t in E: B`                   -> `for t in __vc_iter__(E, info): B` (a symbolic range uses the arbitrary-iteration rule)
  * `[e for t in E]` (one generator)  -> comprehension helper that also accepts a symbolic range
  * float(x), int(x), bool(x) calls   -> helpers that also accept symbolic scalars
Imports of numpy, scipy and torch resolve to the assumed contracts of those libraries (symnp, symrandom, symtorch).
"""
import ast, builtins, importlib, importlib.abc, importlib.util, os, sys, types
import ir
from ir import *
import symnp
from symnp import Arr
from core import Ctx, Sc, lift, wrap, wrapx, PathEnd
import parallel

REPO = os.environ.get('VERIF_REPO', '/repo')
EXECUTED = set()

# ------------------------------------------------------------------ source transformation
class Xf(ast.NodeTransformer):
    def __init__(self): self.n = 0; self.fn = []; self.defs = []
    def visit_FunctionDef(self, node):
        self.fn.append(node.name); self.defs.append(node); self.generic_visit(node); self.defs.pop(); self.fn.pop(); return node
    def visit_While(self, node):
        self.generic_visit(node)
        self.n += 1
        key = '%s#%d' % (self.fn[-1] if self.fn else '<module>', self.n)
        names = sorted(assigned_names(node.body))
        infn = bool(self.fn)
        test = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.test)
        out = []
        loop_iter = ast.Call(ast.Name('__vc_loop__', ast.Load()), [ast.Constant(key), test,
                             ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                        body=ast.Call(ast.Name('__vc_locals__', ast.Load()), [ast.Call(ast.Name('locals', ast.Load()), [], [])], []))], [])
        if names and infn:
            # names possibly unbound before the loop are bound to a marker by the entry helper
            enter = ast.Call(ast.Name('__vc_enter__', ast.Load()), [ast.Constant(key), ast.Call(ast.Name('locals', ast.Load()), [], []),
                             ast.Tuple([ast.Constant(n) for n in names], ast.Load())], [])
            tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())
            back = ast.Expr(ast.Call(ast.Name('__vc_back__', ast.Load()), [ast.Constant(key), ast.Call(ast.Name('locals', ast.Load()), [], [])], []))
            out.append(ast.Assign([tgt], enter))
            body = node.body + [back]
        else:
            body = node.body + [ast.Expr(ast.Call(ast.Name('__vc_back__', ast.Load()), [ast.Constant(key), ast.Call(ast.Name('locals', ast.Load()), [], [])], []))]
            out.append(ast.Expr(ast.Call(ast.Name('__vc_enter__', ast.Load()), [ast.Constant(key), ast.Call(ast.Name('locals', ast.Load()), [], []), ast.Tuple([], ast.Load())], [])))
        out.append(ast.For(ast.Name('__vc_u%d' % self.n, ast.Store()), loop_iter, body, node.orelse))
        return [ast.fix_missing_locations(ast.copy_location(o, node)) for o in out]
    def visit_For(self, node):
        self.n += 1
        key = '%s#%d' % (self.fn[-1] if self.fn else '<module>', self.n)
        bad = bool(loop_carried(node.body) or carried_names(node) or (self.defs and live_after(self.defs[-1], node)))
        self.generic_visit(node)
        node.iter = ast.Call(ast.Name('__vc_iter__', ast.Load()), [node.iter, ast.Constant(bad), ast.Constant(key)], [])
        return ast.fix_missing_locations(node)
    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1: return node
        g = node.generators[0]
        if g.ifs or g.is_async or any(isinstance(n, ast.NamedExpr) for n in ast.walk(node)): return node
        if not isinstance(g.target, ast.Name): return node
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.elt)
        return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Name('__vc_listcomp__', ast.Load()), [g.iter, lam], []), node))
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('float', 'int', 'bool') and len(node.args) == 1 and not node.keywords:
            node.func = ast.copy_location(ast.Name('__vc_%s__' % node.func.id, ast.Load()), node.func)
        return node
def assigned_names(body):
    s = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not n.id.startswith('__vc'): s.add(n.id)
    return s
def scoped(node):
    """Name nodes of the statement or expression, without those bound by comprehensions and lambdas inside"""
    own = set()
    for n in ast.walk(node):
        if isinstance(n, ast.comprehension): own |= {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}
        if isinstance(n, ast.Lambda): own |= {a.arg for a in n.args.args}
    return [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id not in own]
def carried_names(loop):
    """local names that an iteration may read before assigning them, although the loop assigns them"""
    asg = {n.id for b in loop.body for n in scoped(b) if isinstance(n.ctx, ast.Store)}
    bad = set()
    def loads(e, d):
        if e is not None: bad.update(n.id for n in scoped(e) if isinstance(n.ctx, ast.Load) and n.id in asg and n.id not in d)
    def run(body, d):
        for st in body:
            if isinstance(st, ast.If):
                loads(st.test, d); a, b = run(st.body, set(d)), run(st.orelse, set(d)); d = a & b
            elif isinstance(st, (ast.For, ast.While)):
                loads(st.iter if isinstance(st, ast.For) else st.test, d)
                i = set(d) | ({n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)} if isinstance(st, ast.For) else set())
                run(st.body, i); run(st.orelse, set(d))
            elif isinstance(st, (ast.With, ast.Try)):
                for f in ('body', 'orelse', 'finalbody'): run(getattr(st, f, []), set(d))
                for h in getattr(st, 'handlers', []): run(h.body, set(d))
            else:
                loads(st, d); d = d | {n.id for n in scoped(st) if isinstance(n.ctx, ast.Store)}
            if isinstance(st, ast.Continue): return d | asg
        return d
    run(loop.body, {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)})
    return bad
def live_after(fn, loop):
    """local names whose value from the last iteration may be read after the loop"""
    inside = {id(n) for n in ast.walk(loop)}
    asg = {n.id for b in loop.body for n in scoped(b) if isinstance(n.ctx, ast.Store)} | {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    ns = sorted((n for st in fn.body for n in scoped(st) if n.id in asg), key=lambda n: (n.lineno, n.col_offset))
    out = set()
    for q, n in enumerate(ns):
        if id(n) in inside or not isinstance(n.ctx, ast.Load) or (n.lineno, n.col_offset) < (loop.lineno, loop.col_offset): continue
        prev = [m for m in ns if isinstance(m.ctx, ast.Store) and (m.lineno, m.col_offset) < (n.lineno, n.col_offset) and m.lineno < n.lineno]
        if prev and id(prev[-1]) in inside: out.add(n.id)
    return out
def loop_carried(body):
    """does the body (syntactically) carry state between iterations other than through indexed stores?"""
    out = []
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, (ast.Break, ast.Return, ast.Yield)): out.append('flow')
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): out.append('attr')
            if isinstance(n, ast.AugAssign) and not isinstance(n.target, ast.Subscript): out.append('aug')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'update', 'add', 'insert', 'pop'): out.append('grow')
    return out

# ------------------------------------------------------------------ helpers called by the transformed code
class SymRange:
    """range(n) with symbolic n"""
    def __init__(self, n, start=0):
        self.n = n if start == 0 else n - start
        self.start = start
    def symlen(self): return self.n
    def __symlist__(self): return symnp.arange(self.start, self.start + self.n)
    def __iter__(self): raise Unsupported('iteration over a symbolic range')
class SymList:
    """list of symbolic length: element function plus stores made by the arbitrary iteration of a loop"""
    def __init__(self, n, f): self.n, self.f = n, f; self.over = []; self.havoc = False
    def symlen(self): return self.n
    def __len__(self): raise Unsupported('len of symbolic list')
    def __iter__(self): raise Unsupported('iteration over a symbolic list')
    def __symlist__(self):
        e = lift(self.n)
        v = fresh('i', 'I', e)
        r = self.f(Sc(v))
        if isinstance(r, Arr):
            return Arr.make((e,) + r.exts, lambda w: subst(r.at(w[1:]), {v: w[0]}), r.kind)
        t = lift(r)
        return Arr.make((e,), lambda w: subst(t, {v: w[0]}))
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported('slice of symbolic list')
        t = lift(i)
        for k, v in reversed(self.over):
            if k is t: return v
        if self.over or self.havoc: raise Unsupported('symbolic list read at another index than the arbitrary one')
        return self.f(i)
    def __setitem__(self, i, v):
        t = lift(i)
        # the arbitrary iteration's own index, or the (injective) enumeration of a one-dimensional selection at it
        if not (t in GENERIC or (t.op == 'bind' and t.args[0] == 'fun' and t.args[1] == 'wh_e' and len(t.args[2][0][0]) == 1 and t.args[3][1] in GENERIC)):
            raise Unsupported('store to symbolic list outside an arbitrary iteration')
        self.over.append((t, v))
GENERIC = {}      # arbitrary-iteration indices of the current path -> extent
def vc_iter(it, bad, key=''):
    if isinstance(it, Sc): raise TypeError("'int' object is not iterable")
    if isinstance(it, SymRange): g, one = it, False
    elif isinstance(it, _SymZip): g, one = it, False
    elif isinstance(it, SymList) or (isinstance(it, Arr) and it.ndim and const_ext(it.exts[0]) is None): g, one = _SymZip([it]), True
    else: return it
    if bad: raise Unsupported('loop over a symbolic range with loop-carried state')
    objs = reachable(sys._getframe(1))
    if key in PARALLEL: return parallel.run(g, one, objs)
    return _generic(g, one, key, objs)
PARALLEL = set()      # loops (function#number) whose iterations store into arrays: executed with the rule of parallel.py
def transformed(fn):
    """the functions of a source file after the transformation"""
    tree = ast.fix_missing_locations(Xf().visit(ast.parse(open(fn).read(), fn)))
    d = {'__builtins__': BUILT, '__name__': 'transformed'}
    exec(compile(tree, fn, 'exec'), d)
    return d
class NeedParallel(BaseException): pass
def reachable(fr):
    """attributes of the objects of the code under test that the loop can reach: an iteration must not rebind them"""
    return [(o, dict(o.__dict__)) for o in list(fr.f_locals.values()) if hasattr(o, '__dict__') and not isinstance(o, type) and any(str(c.__module__).split('.')[0] == 'cbx' for c in type(o).__mro__)]
def unchanged(objs):
    for o, d in objs:
        n = o.__dict__
        if len(n) != len(d) or any(k not in n or n[k] is not v for k, v in d.items()): raise Unsupported('an iteration of a loop over a symbolic range changes attributes')
class _SymZip:
    def __init__(self, xs): self.xs = xs
    def symlen(self):
        for x in self.xs:
            if hasattr(x, 'symlen'): return x.symlen()
    def item(self, j): return tuple(x[j] if not isinstance(x, SymRange) else j + x.start for x in self.xs)
def _generic(it, one, key, objs):
    ext = lift(it.symlen())
    ext = num(ext)
    j = fresh('it', 'I', ext)
    C = Ctx.cur
    written = []
    serial = symnp.Store.serial
    def hook(st): written.append(st)
    # zero iterations is a separate path unless the extent is known to be positive
    if not (ext in POSDIM or C.holds(lt(const(0, 'I'), ext))):
        if not bool(wrapx(lt(const(0, 'I'), ext))): return
    GENERIC[j] = ext
    symnp._write_hooks.append(hook)
    try: yield element(it, one, j)
    finally: symnp._write_hooks.remove(hook)
    if any(st.nr <= serial for st in written): raise NeedParallel(key)
    unchanged(objs)
def element(it, one, j):
    if isinstance(it, SymRange): return Sc(add(j, lift(it.start)))
    v = it.item(Sc(j))
    return v[0] if one else v
def vc_listcomp(it, f):
    if isinstance(it, SymRange): return SymList(it.n, (lambda j: f(j + it.start)) if it.start != 0 else f)
    if isinstance(it, SymList): return SymList(it.n, lambda j: f(it[j]))
    if isinstance(it, Arr) and it.ndim and const_ext(it.exts[0]) is None: return SymList(it.symlen(), lambda j: f(it[j]))
    return [f(x) for x in it]
class Unbound:
    def __repr__(self): return '<unbound>'
UNBOUND = Unbound()
LOOPS = {}        # loop key -> contract object with enter(locals, names)->dict, back(locals)
def _loop(key): return LOOPS.get(key.split('#')[0])
def vc_enter(key, loc, names):
    h = _loop(key)
    vals = {n: loc.get(n, UNBOUND) for n in names}
    if h is not None: vals.update({k: v for k, v in (h.enter(loc, vals) or {}).items() if k in vals})
    return tuple(vals[n] for n in names)
def vc_back(key, loc):
    h = _loop(key)
    if h is not None:
        h.back(loc)
        raise PathEnd()
MAXUNROLL = 40
def vc_loop(key, test, _):
    h = _loop(key)
    if h is not None:
        if not bool(test()): 
            h.exit() if hasattr(h, 'exit') else None
            return
        yield None
        return
    n = 0
    while bool(test()):
        n += 1
        if n > MAXUNROLL and Ctx.cur is not None: raise Unsupported('loop without contract: %s' % key)
        yield None
def vc_float(x):
    if isinstance(x, Sc): return wrapx(toreal(num(x.t)))
    if isinstance(x, Arr): 
        r = x.item(); return wrapx(toreal(num(lift(r))))
    return float(x)
def vc_int(x):
    if isinstance(x, Arr): x = x.item()
    if isinstance(x, Sc):
        if x.t.sort == 'I': return x
        if x.t.sort == 'B': return wrapx(ind(x.t))
        if ir.integral(x.t): return x          # a real that is an integer (a count)
        raise Unsupported('int() of a real')
    return int(x)
def vc_bool(x): return bool(x)

# ------------------------------------------------------------------ builtins
def b_len(x):
    if hasattr(x, 'symlen'): return x.symlen()
    return builtins.len(x)
def b_range(*a):
    a = [x.item() if isinstance(x, Arr) else x for x in a]
    if builtins.any(isinstance(x, Sc) for x in a):
        if len(a) == 1: return SymRange(a[0])
        if len(a) == 2: return SymRange(a[1], a[0])
        raise Unsupported('symbolic range with step')
    return builtins.range(*a)
def b_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(x, Sc):
        for k in cs:
            if k is float and x.t.sort == 'R': return True
            if k is int and x.t.sort in ('I', 'B'): return True
            if k is bool and x.t.sort == 'B': return True
            if k is Sc: return True
            if builtins.isinstance(k, tuple) and b_isinstance(x, k): return True
        return False
    if isinstance(x, SymList): return list in cs
    return builtins.isinstance(x, c)
def _minmax(name, pick):
    def f(*a, key=None, default=None, **k):
        xs = a if len(a) > 1 else tuple(a[0])
        if not builtins.any(isinstance(x, (Sc, Arr)) for x in xs) or key is not None:
            return getattr(builtins, name)(*a, **({'key': key} if key else {}))
        r = xs[0]
        for x in xs[1:]:
            # decided conditions choose, otherwise build a conditional (python keeps the first of equal ones)
            c = (x < r) if pick == 'min' else (x > r)
            if isinstance(c, Sc): 
                C = Ctx.cur
                if C.holds(c.t): r = x
                elif C.holds(not_(c.t)): pass
                else: r = wrapx(ite(c.t, num(lift(x)), num(lift(r))))
            elif c: r = x
        return r
    return f
def b_sum(xs, start=0):
    if isinstance(xs, Arr): return symnp.reduce_sum(xs, 0)
    r = start
    for x in xs: r = r + x
    return r
def b_abs(x): return abs(x)
def b_enumerate(x, start=0):
    if isinstance(x, (SymRange, SymList)) or (isinstance(x, Arr) and const_ext(x.exts[0]) is None):
        n = x.symlen()
        return _SymZip([SymRange(n), x])
    return builtins.enumerate(x, start)
def b_zip(*xs, **k):
    if builtins.any(isinstance(x, (SymRange, SymList)) or (isinstance(x, Arr) and x.ndim and const_ext(x.exts[0]) is None) for x in xs):
        return _SymZip(list(xs))
    return builtins.zip(*xs, **k)
def b_list(*a):
    if a and isinstance(a[0], SymRange): return SymList(a[0].n, lambda j: j + a[0].start)
    if a and isinstance(a[0], SymList): return a[0]
    return builtins.list(*a)
PRINTED = []
def b_print(*a, **k): PRINTED.append(a)
def b_hasattr(o, n): return builtins.hasattr(o, n)
class _Listish(type):
    pass
BUILT = dict(vars(builtins))
BUILT.update(len=b_len, range=b_range, isinstance=b_isinstance, min=_minmax('min', 'min'), max=_minmax('max', 'max'),
             sum=b_sum, enumerate=b_enumerate, zip=b_zip, print=b_print)
BUILT.update(__vc_iter__=vc_iter, __vc_listcomp__=vc_listcomp, __vc_loop__=vc_loop, __vc_enter__=vc_enter, __vc_back__=vc_back,
             __vc_locals__=lambda l: l, __vc_float__=vc_float, __vc_int__=vc_int, __vc_bool__=vc_bool)

# ------------------------------------------------------------------ module system
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != 'cbx' and not name.startswith('cbx.'): return None
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            return importlib.util.spec_from_file_location(name, os.path.join(p, '__init__.py'), loader=self, submodule_search_locations=[p])
        if os.path.exists(p + '.py'): return importlib.util.spec_from_file_location(name, p + '.py', loader=self)
        return None
    def create_module(self, spec): return None
    def exec_module(self, module):
        fn = module.__spec__.origin
        src = open(fn).read()
        tree = Xf().visit(ast.parse(src, fn))
        ast.fix_missing_locations(tree)
        module.__dict__['__builtins__'] = BUILT
        exec(compile(tree, fn, 'exec'), module.__dict__)
    def get_source(self, name): return None

def shim(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update({n: v if n.startswith('__') else symnp.strict_kwargs(v) for n, v in attrs.items()})
    sys.modules[name] = m
    if '.' in name:
        par, leaf = name.rsplit('.', 1)
        setattr(sys.modules[par], leaf, m)
    return m
_installed = False
def install():
    global _installed
    if _installed: return
    _installed = True
    import symrandom, symtorch
    names = ('asarray array zeros ones empty zeros_like ones_like full_like empty_like full arange eye identity diag repeat tile concatenate '
             'stack vstack hstack broadcast_to broadcast_arrays sum amin amax argmin argmax any all mean var std prod cumsum exp log sin cos tan tanh sinh cosh '
             'arctan arcsin cbrt sqrt sign abs absolute fabs square power log1p expm1 negative subtract multiply true_divide divide '
             'reciprocal mod remainder floor_divide arctan2 hypot maximum minimum fmax fmin clip isnan isinf isfinite isposinf isneginf nan_to_num '
             'isclose allclose array_equal logical_not logical_and logical_or heaviside nonzero flatnonzero argwhere count_nonzero where '
             'copy ascontiguousarray unique intersect1d union1d setdiff1d isin in1d sort take take_along_axis apply_along_axis average '
             'matmul dot inner outer vecdot einsum trace reshape transpose swapaxes moveaxis squeeze expand_dims atleast_1d atleast_2d ravel '
             'astype floor ceil linspace meshgrid vectorize nanmin nanmax nanmean diagonal '
             'less less_equal greater greater_equal equal not_equal logical_xor bitwise_not bitwise_and bitwise_or positive float_power asanyarray '
             'atleast_3d flip roll diff ptp compress select nansum vdot tensordot dstack column_stack copyto put_along_axis triu tril ix_ exp2 log2 log10 split append').split()
    d = {n: getattr(symnp, n) for n in names if hasattr(symnp, n)}
    def missing(nm):
        def f(*a, **k): raise Unsupported('numpy.' + nm)
        return f
    for n in names: d.setdefault(n, missing(n))
    d.update(add=symnp.add_np, invert=symnp.bitwise_not, min=symnp.amin, max=symnp.amax, inf=float('inf'), nan=float('nan'), pi=Sc(ir.PI), e=wrapx(fn('exp', const(1, 'R'))),
             newaxis=None, ndarray=Arr, float64=float, float32=float, int64=int, int32=int, intp=int, bool_=bool, integer=int, floating=float,
             float_=float, number=float, generic=Sc, dtype=lambda x: symnp.DType(x), expm1=symnp.expm1)
    class errstate:
        def __init__(self, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
    d['errstate'] = errstate
    class finfo:
        def __init__(self, t): 
            self.eps = Sc(var('FINFO_EPS', 'R')); self.max = Sc(BIG); self.min = Sc(neg(BIG)); self.tiny = Sc(var('FINFO_TINY', 'R'))
    SIGNFACT[var('FINFO_EPS', 'R')] = '+'; SIGNFACT[var('FINFO_TINY', 'R')] = '+'
    d['finfo'] = finfo
    d['ndim'] = lambda a: symnp.asarray(a).ndim
    d['shape'] = lambda a: symnp.asarray(a).shape
    d['size'] = lambda a: symnp.asarray(a).size
    d['isscalar'] = lambda a: symnp.isnum(a)
    for k, v in list(d.items()):
        pass
    np = shim('numpy', **d)
    np.__getattr__ = lambda nm: (_ for _ in ()).throw(Unsupported('numpy.' + nm)) if not nm.startswith('__') else (_ for _ in ()).throw(AttributeError(nm))
    shim('numpy.typing', ArrayLike=object, NDArray=object)
    shim('numpy.lib'); shim('numpy.lib.stride_tricks', as_strided=symnp.as_strided)
    shim('numpy.linalg', norm=symnp.norm, vector_norm=lambda x, axis=None, keepdims=False, ord=2: symnp.norm(x, None if ord == 2 else ord, axis, keepdims), solve=symnp.solve, inv=symnp.inv_np, eigh=symnp.eigh, svd=symnp.svd,
         LinAlgError=ValueError, __getattr__=lambda nm: (_ for _ in ()).throw(Unsupported('numpy.linalg.' + nm)))
    shim('numpy.random', **symrandom.exports)
    shim('scipy'); shim('scipy.special', logsumexp=symnp.logsumexp, softmax=symnp.softmax)
    shim('scipy.stats', multivariate_normal=symrandom.multivariate_normal_pdf)
    for nm, attrs in symtorch.modules().items(): shim(nm, **attrs)
    mpl = types.ModuleType('matplotlib')
    sys.meta_path.insert(0, Finder())
def fresh_repo():
    """forget loaded repo modules so that module state never leaks between paths"""
    for n in [n for n in sys.modules if n == 'cbx' or n.startswith('cbx.')]: del sys.modules[n]
def profile(frame, event, arg):
    if event == 'call':
        c = frame.f_code
        if c.co_filename.startswith(REPO) and not c.co_name.startswith('<'):
            EXECUTED.add((os.path.relpath(c.co_filename, REPO), c.co_qualname))
