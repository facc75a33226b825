"""Symbolic arrays: assumed contracts of the numpy operations used by the code under verification.

An array is a rank-concrete tensor whose extents are integer terms and whose elements are one term over index
variables.  Storage is mutable; basic slicing gives views that write through, as in numpy.
"""
import builtins, itertools
from ir import *
import ir
from core import Ctx, Sc, lift, wrap, wrapx, isnum, sabs, spow, sidiv, simod

I0 = const(0, 'I'); I1 = const(1, 'I')
class ShapeError(ValueError): pass

# keyword arguments of library functions that do not change the value, and values that stand for 'not given';
# any other keyword that a function below does not name is outside the assumed contracts
HARMLESS = {'device', 'requires_grad', 'generator', 'subok', 'like', 'check_finite', 'assume_unique', 'memory_format', 'non_blocking', 'pin_memory', 'layout', 'copy', 'writeable', 'overwrite_a'}
def strict_kwargs(f):
    import functools, inspect, types
    if not isinstance(f, types.FunctionType): return f
    ps = inspect.signature(f).parameters
    if not builtins.any(p.kind is p.VAR_KEYWORD for p in ps.values()) or getattr(f, 'passes_on', False): return f
    named = {n for n, p in ps.items() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)} | getattr(f, 'handles', set())
    @functools.wraps(f)
    def g(*a, **k):
        for n, v in k.items():
            if n in named or n in HARMLESS or v is None or v is False: continue
            if n == 'dtype' and kind_of_dtype(v) == 'f' or n == 'where' and v is True or n == 'order' and v in ('C', 'K') or n == 'casting' and v == 'same_kind': continue
            raise Unsupported('option %s of %s' % (n, f.__name__))
        return f(*a, **k)
    return g
def _dim(axis, dim): return axis if dim is None else dim

def dimt(d):
    if isinstance(d, T): return d
    if isinstance(d, Sc): return num(d.t)
    if isinstance(d, bool): raise Unsupported('bool dim')
    if isinstance(d, int): return const(d, 'I')
    if isinstance(d, Arr) and d.ndim == 0: return num(d.at(()))
    if hasattr(d, '__index__'): return const(int(d), 'I')
    raise TypeError('bad dimension %r' % (d,))
def dim_eq(a, b):
    if a is b: return True
    if a.op == 'const' and b.op == 'const': return False
    return Ctx.cur.holds(eq(a, b))
def ivars(exts):
    return tuple(fresh('i', 'I', e) for e in exts)

class Cell:
    """element term of an array, possibly not computed yet (the operands are captured at creation)"""
    __slots__ = ('t', 'thunk')
    def __init__(self, t, thunk=None): self.t, self.thunk = t, thunk
    def force(self):
        if self.t is None: self.t = self.thunk(); self.thunk = None
        return self.t
class Store:
    __slots__ = ('vs', 'exts', 'cell', '_kind', 'version', 'name', 'nr')
    serial = 0
    def __init__(self, vs, exts, body, kind):
        self.vs, self.exts, self._kind = tuple(vs), tuple(exts), kind
        self.cell = body if isinstance(body, Cell) else Cell(body)
        self.version = 0; self.name = None
        Store.serial += 1; self.nr = Store.serial
    @property
    def body(self):
        t = self.cell.force()
        if self._kind is None: self._kind = kind_of_term(t)
        return t
    @body.setter
    def body(self, t): self.kind; self.cell = Cell(t)
    @property
    def kind(self):
        if self._kind is None: self.body
        return self._kind
    def at(self, idx):
        return subst(self.body, dict(zip(self.vs, idx)))

def kind_of_term(t): return {'R': 'f', 'I': 'i', 'B': 'b'}[t.sort]
def coerce(t, kind):
    if kind == 'b': return boolify(t)
    if kind == 'i':
        t = num(t)
        if t.sort == 'R':
            if all(c.denominator == 1 and all(a.sort == 'I' and e > 0 for a, e in m) for m, c in items(t)):
                return frompoly(dict(items(t)), 'I')
            raise Unsupported('float to int conversion')
        return t
    return toreal(num(t))

class Size(tuple):
    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r
    def numel(self):
        r = 1
        for e in self: r = r * e
        return r
Sc.shape = Size()
class Arr:
    __array_priority__ = 100
    def __init__(self, store, vw=None):
        self.store = store
        self.vw = vw          # None or (exts, fwd, rev)
    # ---------------- basics
    @staticmethod
    def make(exts, body_fn, kind=None):
        vs = ivars(exts)
        b = body_fn(vs)
        if kind is None: kind = kind_of_term(b)
        return Arr(Store(vs, exts, coerce(b, kind), kind))
    @staticmethod
    def lazy(exts, body_fn, kind=None):
        """like make, but the element term is computed at the first use"""
        vs = ivars(exts)
        def th():
            b = body_fn(vs)
            return coerce(b, kind if kind is not None else kind_of_term(b))
        return Arr(Store(vs, exts, Cell(None, th), kind))
    @property
    def unforced(self): return self.store.cell.t is None
    def reader(self):
        """index -> term with the contents the array has now"""
        c, vs, vw = self.store.cell, self.store.vs, self.vw
        return lambda idx: subst(c.force(), dict(zip(vs, idx if vw is None else vw[1](tuple(idx)))))
    @property
    def exts(self): return self.store.exts if self.vw is None else self.vw[0]
    @property
    def kind(self): return self.store.kind
    @property
    def shape(self): return Size(wrap(e) for e in self.exts)
    @property
    def ndim(self): return len(self.exts)
    @property
    def size(self):
        r = 1
        for e in self.exts: r = r * wrap(e)
        return r
    @property
    def dtype(self): return DType({'f': float, 'i': int, 'b': bool}[self.kind])
    @property
    def T(self): return transpose(self)
    @property
    def strides(self): return tuple(('stride', id(self.store), i) for i in range(self.ndim))
    def at(self, idx):
        if len(idx) != len(self.exts): raise Unsupported('rank')
        if self.vw is None: return self.store.at(idx)
        return self.store.at(self.vw[1](tuple(idx)))
    def __len__(self):
        if not self.exts: raise TypeError('len() of unsized object')
        return int(self.exts[0].args[0]) if self.exts[0].op == 'const' else _symlen()
    def symlen(self):
        if not self.exts: raise TypeError('len() of unsized object')
        return wrap(self.exts[0])
    def __bool__(self):
        if self.ndim == 0 or all(e.op == 'const' and e.args[0] == 1 for e in self.exts):
            return bool(wrapx(boolify(self.at((I0,) * self.ndim))))
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __iter__(self):
        n = const_ext(self.exts[0]) if self.exts else None
        if n is None: raise Unsupported('iteration over symbolic axis')
        for i in range(n): yield self[i]
    def __repr__(self): return 'Arr%s %s' % ([show(e, 3) for e in self.exts], show(self.at(self.store.vs), 5) if self.vw is None else 'view')
    __str__ = __repr__
    def __hash__(self): return id(self)
    def __index__(self):
        if self.ndim == 0: return Sc(num(self.at(()))).__index__()
        raise TypeError('only 0-d')
    def __sym_scalar__(self):
        if self.ndim == 0: return self.at(())
        raise Unsupported('array as scalar')
    def item(self):
        if all(const_ext(e) == 1 for e in self.exts): return wrapx(self.at((I0,) * self.ndim))
        raise ValueError('can only convert an array of size 1')
    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def copy(self, *a, **k):
        if self.unforced:
            rd = self.reader()
            return Arr.lazy(self.exts, lambda v: rd(v), self.store._kind)
        return Arr.make(self.exts, lambda v: self.at(v), self.kind)
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def assign(self, cond_fn, val_fn):
        """for store index s: if cond(s) then val(s)"""
        st = self.store
        vs = st.vs
        new = coerce(val_fn(vs), st.kind)
        c = cond_fn(vs)
        for h in _pre_hooks: h(st)
        for h in _cond_hooks: h(st, c)
        st.body = ite(c, new, st.body) if st.kind != 'b' else or_(and_(c, new), and_(not_(c), st.body))
        if st.kind == 'f': st.body = toreal(num(st.body))
        st.version += 1
        NOTE_WRITE(st)
    def set_all(self, val):
        """self[...] = val"""
        v = broadcast_to(asarray(val), self.exts)
        if self.kind != 'f' and v.kind == 'f': coerce_check(v, self.kind)
        if self.vw is None:
            for h in _pre_hooks: h(self.store)
            for h in _cond_hooks: h(self.store, TRUE)
            self.store.body = coerce(v.at(self.store.vs), self.kind)
            self.store.version += 1
            NOTE_WRITE(self.store)
        else:
            snap = freeze(v)
            rev = self.vw[2]
            self.assign(lambda s: rev(s)[0], lambda s: snap.at(rev(s)[1]))
    # ---------------- indexing
    def __getitem__(self, key): return getitem(self, key)
    def __setitem__(self, key, val): setitem(self, key, val)
    # ---------------- arithmetic
    def _b(self, o, f, rev=False, kind=None):
        if not (isnum(o) or isinstance(o, (Arr, list, tuple))) and not hasattr(o, '__sym_scalar__'): return NotImplemented
        o = asarray(o)
        return elementwise(f, o, self, kind=kind) if rev else elementwise(f, self, o, kind=kind)
    def __add__(self, o): return self._b(o, add_)
    def __radd__(self, o): return self._b(o, add_, True)
    def __sub__(self, o): return self._b(o, sub)
    def __rsub__(self, o): return self._b(o, sub, True)
    def __mul__(self, o): return self._b(o, mul_)
    def __rmul__(self, o): return self._b(o, mul_, True)
    def __truediv__(self, o): return self._b(o, div)
    def __rtruediv__(self, o): return self._b(o, div, True)
    def __floordiv__(self, o): return self._b(o, sidiv)
    def __mod__(self, o): return self._b(o, simod)
    def __rmod__(self, o): return self._b(o, simod, True)
    def __pow__(self, o): return self._b(o, spow)
    def __rpow__(self, o): return self._b(o, spow, True)
    def __neg__(self): return elementwise(neg, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise(sabs, self)
    def __lt__(self, o): return self._b(o, lt)
    def __le__(self, o): return self._b(o, le)
    def __gt__(self, o): return self._b(o, lambda a, b: lt(b, a))
    def __ge__(self, o): return self._b(o, lambda a, b: le(b, a))
    def __eq__(self, o): return self._b(o, eqt)
    def __ne__(self, o): return self._b(o, lambda a, b: not_(eqt(a, b)))
    def __and__(self, o): return self._b(o, lambda a, b: bits(a, b, and_))
    __rand__ = __and__
    def __or__(self, o): return self._b(o, lambda a, b: bits(a, b, or_))
    __ror__ = __or__
    def __xor__(self, o): return self._b(o, lambda a, b: bits(a, b, lambda x, y: not_(iff(x, y))))
    def __invert__(self):
        if self.kind != 'b': raise Unsupported('~ on non-bool')
        return elementwise(not_, self)
    def __matmul__(self, o): return matmul(self, asarray(o))
    def __rmatmul__(self, o): return matmul(asarray(o), self)
    def _ip(self, o, f):
        r = elementwise(f, self, asarray(o))
        if len(r.exts) != len(self.exts): raise ShapeError('non-broadcastable output operand')
        for a, b in zip(self.exts, r.exts):
            if not dim_eq(a, b): raise ShapeError('non-broadcastable output operand')
        if self.kind != r.kind:
            if self.kind == 'i' and r.kind == 'f': raise TypeError('Cannot cast ufunc output from float64 to int64')
            if self.kind == 'b': raise TypeError('Cannot cast ufunc output to bool')
        self.set_all(r)
        return self
    def __iadd__(self, o): return self._ip(o, add_)
    def __isub__(self, o): return self._ip(o, sub)
    def __imul__(self, o): return self._ip(o, mul_)
    def __itruediv__(self, o): return self._ip(o, div)
    def __ipow__(self, o): return self._ip(o, spow)
    def __imod__(self, o): return self._ip(o, simod)
    # ---------------- methods
    # (numpy spellings axis/keepdims and torch spellings dim/keepdim)
    def sum(self, axis=None, keepdims=False, dtype=None, dim=None, keepdim=False, **k): return sum(self, _dim(axis, dim), keepdims or keepdim, dtype, **k)
    def mean(self, axis=None, keepdims=False, dtype=None, dim=None, keepdim=False, **k): return mean(self, _dim(axis, dim), keepdims or keepdim, **k)
    def min(self, axis=None, keepdims=False, dim=None, keepdim=False, **k): return _extreme(self, axis, keepdims, dim, keepdim, 'min')
    def max(self, axis=None, keepdims=False, dim=None, keepdim=False, **k): return _extreme(self, axis, keepdims, dim, keepdim, 'max')
    def argmin(self, axis=None, keepdims=False, dim=None, keepdim=False): return argminmax(self, _dim(axis, dim), 'min', keepdims or keepdim)
    def argmax(self, axis=None, keepdims=False, dim=None, keepdim=False): return argminmax(self, _dim(axis, dim), 'max', keepdims or keepdim)
    def any(self, axis=None, keepdims=False, dim=None, keepdim=False, **k): return reduce_any(self, _dim(axis, dim), keepdims or keepdim)
    def all(self, axis=None, keepdims=False, dim=None, keepdim=False, **k): return logical_not(reduce_any(logical_not(self), _dim(axis, dim), keepdims or keepdim))
    def prod(self, axis=None, keepdims=False, dtype=None, dim=None, keepdim=False, **k): return prod(self, _dim(axis, dim), dtype, keepdims or keepdim)
    def take(self, i, axis=None): return take(self, i, axis)
    def var(self, axis=None, keepdims=False, ddof=0): return var(self, axis, keepdims, ddof)
    def nonzero(self): return nonzero(self)
    def diagonal(self, offset=0, axis1=0, axis2=1): return diagonal(self, offset, axis1, axis2)
    def trace(self): return trace(self)
    def std(self, axis=None, keepdims=False, ddof=0): return std(self, axis, keepdims, ddof)
    def reshape(self, *s, order='C', **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        elif len(s) == 1 and isinstance(s[0], Arr): s = tuple(s[0])
        return reshape(self, s, order, **k)
    view_ = reshape
    def ravel(self): return reshape(self, (-1,))
    def flatten(self): return reshape(self, (-1,)).copy()
    def squeeze(self, axis=None): return squeeze(self, axis)
    def transpose(self, *a): return transpose(self, a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else (a or None))
    def swapaxes(self, a, b): return swapaxes(self, a, b)
    def astype(self, dt, copy=True): return astype(self, dt)
    def tolist(self):
        if self.ndim == 0: return self.item()
        return [x.tolist() if isinstance(x, Arr) else x for x in self]
    def fill(self, v): self.set_all(v)
    def clip(self, a_min=None, a_max=None): return clip(self, a_min, a_max)
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def dot(self, o): return matmul(self, asarray(o))

def _symlen(): raise Unsupported('len() of symbolic axis through the builtin protocol')
_write_hooks = []; _pre_hooks = []; _cond_hooks = []
def NOTE_WRITE(st):
    for h in _write_hooks: h(st)
class DType:
    def __init__(self, py): self.py = py
    def __eq__(self, o): return (o.py if isinstance(o, DType) else o) in (self.py,) or (o in ('float64',) and self.py is float)
    def __hash__(self): return hash(self.py)
    @property
    def kind(self): return {float: 'f', int: 'i', bool: 'b'}[self.py]
def kind_of_dtype(dt):
    if dt is None: return None
    if isinstance(dt, DType): dt = dt.py
    if dt in (float, 'float', 'float64', 'f8', 'd') or getattr(dt, '__name__', '') in ('float64', 'double', 'floating'): return 'f'
    if dt in (int, 'int', 'int64', 'i8') or getattr(dt, '__name__', '') in ('int64', 'int_', 'intp', 'integer'): return 'i'
    if dt in (bool, 'bool') or getattr(dt, '__name__', '') in ('bool_', 'bool'): return 'b'
    raise Unsupported('dtype %r' % (dt,))
def coerce_check(v, kind):
    coerce(v.at(ivars(v.exts)), kind)
def bits(a, b, f):
    if a.sort == 'B' and b.sort == 'B': return f(a, b)
    raise Unsupported('bitwise op on numbers')
def add_(a, b):
    if a.sort == 'B' and b.sort == 'B': return or_(a, b)
    return add(a, b)
def mul_(a, b):
    if a.sort == 'B' and b.sort == 'B': return and_(a, b)
    return mul(a, b)
def eqt(a, b):
    if a.sort == 'B' and b.sort == 'B': return iff(a, b)
    return eq(num(a), num(b))

def scalar(t): return Arr(Store((), (), t, kind_of_term(t)))
def asarray(x, dtype=None):
    if isinstance(x, Arr): return x if dtype is None else astype(x, dtype)
    if isnum(x): r = scalar(lift(x))
    elif isinstance(x, (list, tuple)) or type(x).__name__ == 'ndarray': r = from_list(list(x))
    elif isinstance(x, range): r = from_list(list(x))
    elif hasattr(x, '__symlist__'): r = x.__symlist__()
    elif x is None: raise TypeError('unsupported operand type(s): NoneType')
    else: raise Unsupported('array from %r' % type(x))
    return r if dtype is None else astype(r, dtype)
def array(x, dtype=None, copy=True, **k):
    r = asarray(x, dtype)
    return r.copy() if r is x else r
def from_list(xs):
    n = len(xs)
    if n == 0: return Arr(Store((fresh('i', 'I', I0),), (I0,), const(0, 'R'), 'f'))
    xs = [asarray(x) for x in xs]
    sh = xs[0].exts
    for x in xs:
        if len(x.exts) != len(sh) or not all(dim_eq(a, b) for a, b in zip(x.exts, sh)):
            raise ValueError('inhomogeneous shape')
    kind = 'f' if any(x.kind == 'f' for x in xs) else ('i' if any(x.kind == 'i' for x in xs) else 'b')
    def body(v):
        r = coerce(xs[0].at(v[1:]), kind)
        for i in range(1, n):
            e = coerce(xs[i].at(v[1:]), kind)
            r = ite(eq(v[0], const(i, 'I')), e, r)
        return r
    return Arr.make((const(n, 'I'),) + tuple(sh), body, kind)
def freeze(a): return a.copy()

# ---------------------------------------------------------------- broadcasting
def is1(e): return e.op == 'const' and e.args[0] == 1
def bcast(shapes):
    r = builtins.max((len(s) for s in shapes), default=0)
    out = []
    for i in range(r):
        cur = None
        for s in shapes:
            j = i - (r - len(s))
            if j < 0: continue
            e = s[j]
            if is1(e): continue
            if cur is None: cur = e
            elif not dim_eq(cur, e):
                # a symbolic extent may still be one
                raise ShapeError('operands could not be broadcast together: %s vs %s' % (show(cur, 4), show(e, 4)))
            elif cur.op != 'const' and (e.op == 'const' or e.id < cur.id): cur = e if e.op == 'const' else cur
        out.append(cur if cur is not None else I1)
    return tuple(out)
def bidx(v, exts):
    """index for an operand of extents exts inside result index v"""
    off = len(v) - len(exts)
    return tuple(I0 if is1(e) else v[off + j] for j, e in enumerate(exts))
def elementwise(f, *xs, kind=None):
    xs = [asarray(x) for x in xs]
    exts = bcast([x.exts for x in xs])
    if exts and any_unforced(xs):
        rd = [(x.reader(), x.exts) for x in xs]
        return Arr.lazy(exts, lambda v: f(*[g(bidx(v, e)) for g, e in rd]), kind)
    r = Arr.make(exts, lambda v: f(*[x.at(bidx(v, x.exts)) for x in xs]), kind)
    if not exts: return wrapx(r.store.body)
    return r
def any_unforced(xs):
    for x in xs:
        if x.store.cell.t is None: return True
    return False
def broadcast_to(a, exts):
    a = asarray(a)
    exts = tuple(dimt(e) for e in exts)
    if a.ndim > len(exts):
        if all(is1(e) for e in a.exts[:a.ndim - len(exts)]): a = reshape(a, a.exts[a.ndim - len(exts):])
        else: raise ShapeError('could not broadcast')
    off = len(exts) - a.ndim
    for j, e in enumerate(a.exts):
        if not is1(e) and not dim_eq(e, exts[off + j]): raise ShapeError('could not broadcast %s into %s' % ([show(x, 3) for x in a.exts], [show(x, 3) for x in exts]))
    def fwd(v): return bidx(v, a.exts)
    return Arr.make(exts, lambda v: a.at(fwd(v)), a.kind)

# ---------------------------------------------------------------- indexing
def norm_int(t, e):
    """index with python wrap-around of negatives"""
    t = num(t)
    if t.op == 'const':
        if t.args[0] < 0: t = add(e, t)
        BOUNDS(t, e); return t
    if in_range(t, e): return t
    if ir.sign(t) in ('+', '0+'):
        BOUNDS(t, e); return t
    if t.op == 'poly' and not Ctx.cur.holds(le(I0, t)):
        if Ctx.cur.holds(lt(t, I0)): t = add(e, t)
        else: raise Unsupported('index of undetermined sign')
    BOUNDS(t, e)
    return t
def BOUNDS(t, e):
    if in_range(t, e): return
    c = Ctx.cur
    if c is None: return
    vs = [v for v in t.fv if v in VRANGE]
    if not c.holds(and_(le(I0, t), lt(t, e))):
        raise IndexError('index %s may be out of bounds for axis of size %s' % (show(t, 4), show(e, 4)))
def conc(x):
    """python-usable scalar index -> term"""
    if isinstance(x, bool): return None
    if isinstance(x, int): return const(x, 'I')
    if isinstance(x, Sc) and x.t.sort == 'I': return x.t
    if isinstance(x, Arr) and x.ndim == 0 and x.kind == 'i': return x.at(())
    if hasattr(x, '__index__') and not isinstance(x, (Arr, Sc)): return const(int(x), 'I')
    return None
def slice_dim(s, e):
    """(start, length, step) terms"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int): raise Unsupported('symbolic slice step')
    def b(x, default):
        if x is None: return default
        t = num(lift(x)) if not isinstance(x, Arr) else num(x.at(()))
        if t.op == 'const' and t.args[0] < 0: t = add(e, t)
        return t
    C = Ctx.cur
    def clampto(t):
        if t.op == 'const' and t.args[0] == 0: return t
        if t is e: return t
        if C.holds(le(t, e)):
            if C.holds(le(I0, t)): return t
            return ite(le(I0, t), t, I0)
        if e.op == 'const' and t.op == 'const': return const(builtins.max(0, builtins.min(int(t.args[0]), int(e.args[0]))), 'I')
        if bool(wrapx(le(t, e))):
            return t if bool(wrapx(le(I0, t))) else I0
        return e
    if step == 1:
        a = clampto(b(s.start, I0)); z = clampto(b(s.stop, e))
        if a is I0: n = z
        elif C.holds(le(a, z)): n = sub(z, a)
        elif bool(wrapx(le(a, z))): n = sub(z, a)
        else: n = I0
        return a, n, 1
    if step == -1 and s.start is None and s.stop is None: return sub(e, I1), e, -1
    if e.op == 'const' and all(isinstance(x, (int, type(None))) for x in (s.start, s.stop)):
        r = range(*s.indices(int(e.args[0])))
        return const(r.start, 'I'), const(len(r), 'I'), step
    if step > 0 and s.start in (None, 0, 1) and s.stop is None:
        a = b(s.start, I0)
        return a, idiv(add(sub(e, a), const(step - 1, 'I')), const(step, 'I')), step
    raise Unsupported('slice %r' % (s,))
def expand_key(a, key):
    if not isinstance(key, tuple): key = (key,)
    key = list(key)
    out = []
    nspec = 0
    for k in key:
        if isinstance(k, Arr) and k.kind == 'b': nspec += k.ndim
        elif isinstance(k, Arr) and k.ndim == 0 and False: pass
        elif k is None or k is Ellipsis: pass
        else: nspec += 1
    if nspec > a.ndim: raise IndexError('too many indices for array')
    if not any(k is Ellipsis for k in key): key.append(Ellipsis)
    seen = False
    ax = 0
    for k in key:
        if k is Ellipsis:
            n = a.ndim - nspec
            if seen: raise IndexError('two ellipses')
            seen = True
            out += [slice(None)] * n; ax += n
        elif k is None: out.append(None)
        elif isinstance(k, Arr) and k.kind == 'b':
            for j, e in enumerate(k.exts):
                if not dim_eq(e, a.exts[ax + j]): raise IndexError('boolean index did not match')
            if k.ndim == 0: raise Unsupported('0-d bool index')
            out += list(nonzero(k)); ax += k.ndim
        elif isinstance(k, (bool,)) or (isinstance(k, Sc) and k.t.sort == 'B'): raise Unsupported('bool scalar index')
        elif isinstance(k, (list, tuple)): 
            r = asarray(k)
            if r.kind == 'b': raise Unsupported('list bool index')
            if r.kind == 'f' and r.exts[0] is I0: r = astype(r, int)
            out.append(r); ax += 1
        elif isinstance(k, range): out.append(asarray(list(k))); ax += 1
        elif isinstance(k, slice): out.append(k); ax += 1
        elif isinstance(k, Arr) and k.ndim > 0:
            if k.kind == 'f': raise IndexError('arrays used as indices must be of integer type')
            out.append(k); ax += 1
        else:
            t = conc(k)
            if t is None: raise IndexError('invalid index %r' % (k,))
            out.append(t); ax += 1
    return out
def plan(a, key):
    """-> (result exts, fwd(result idx)->a idx, adv info)"""
    ks = expand_key(a, key)
    adv = [k for k in ks if isinstance(k, Arr)]
    ax = 0
    comps = []     # per source axis: ('int', t) | ('slice', start, step, resaxis) | ('adv', arr)
    layout = []    # result axes in order: ('new',), ('sl', n), ('adv',)
    advpos = []
    for pos, k in enumerate(ks):
        if k is None: layout.append(('new', None)); continue
        e = a.exts[ax]
        if isinstance(k, T):
            if adv:
                comps.append(('advint', norm_int(k, e))); layout.append(('advslot', None)); advpos.append(len(layout) - 1)
            else: comps.append(('int', norm_int(k, e)))
        elif isinstance(k, slice):
            st, n, step = slice_dim(k, e)
            comps.append(('slice', st, step, n)); layout.append(('sl', len(comps) - 1, n))
        else:
            comps.append(('adv', k, e)); layout.append(('advslot', None)); advpos.append(len(layout) - 1)
        ax += 1
    if not adv:
        exts = []; where = {}
        for l in layout:
            if l[0] == 'new': exts.append(I1)
            else:
                where[l[1]] = len(exts); exts.append(l[2])
        def fwd(v):
            o = []
            for i, c in enumerate(comps):
                if c[0] == 'int': o.append(c[1])
                else:
                    x = v[where[i]]
                    if c[2] != 1: x = mul(x, const(c[2], 'I'))
                    o.append(add(c[1], x) if c[1] is not I0 else x)
            return tuple(o)
        def rev(s):
            cs = []; o = [I0] * len(exts)
            for i, c in enumerate(comps):
                if c[0] == 'int': cs.append(eq(s[i], c[1]))
                else:
                    x = sub(s[i], c[1]) if c[1] is not I0 else s[i]
                    if c[2] == -1: x = neg(x)
                    elif c[2] != 1:
                        cs.append(eq(imod(x, const(c[2], 'I')), I0)); x = idiv(x, const(c[2], 'I'))
                    if not (c[1] is I0 and c[2] == 1 and c[3] is a.exts[i]) and not (c[2] == -1):
                        cs.append(le(I0, x)); cs.append(lt(x, c[3]))
                    o[where[i]] = x
            return and_(*cs), tuple(o)
        return tuple(exts), fwd, rev, None
    B = bcast([k.exts for k in adv])
    contiguous = all(advpos[i + 1] == advpos[i] + 1 for i in range(len(advpos) - 1))
    lay2 = []
    placed = False
    if not contiguous:
        lay2.append(('adv',)); placed = True
    for l in layout:
        if l[0] == 'advslot':
            if not placed: lay2.append(('adv',)); placed = True
        else: lay2.append(l)
    exts = []; where = {}; advat = None
    for l in lay2:
        if l[0] == 'adv': advat = len(exts); exts += list(B)
        elif l[0] == 'new': exts.append(I1)
        else: where[l[1]] = len(exts); exts.append(l[2])
    nb = len(B)
    # bounds obligations for the index arrays
    for c in comps:
        if c[0] == 'adv':
            vs = ivars(c[1].exts)
            t = c[1].at(vs)
            check_adv_bounds(t, c[2], c[1].exts)
    def fwd(v):
        p = v[advat:advat + nb]
        o = []
        for i, c in enumerate(comps):
            if c[0] == 'advint': o.append(c[1])
            elif c[0] == 'adv':
                t = c[1].at(bidx(p, c[1].exts))
                if t.op == 'const' and t.args[0] < 0: t = add(c[2], t)
                o.append(t)
            else:
                x = v[where[i]]
                if c[2] != 1: x = mul(x, const(c[2], 'I'))
                o.append(add(c[1], x) if c[1] is not I0 else x)
        return tuple(o)
    def rev(s):
        """store index -> (cond, result index) picking the last write"""
        cs = []; o = [I0] * len(exts)
        eqs = []
        for i, c in enumerate(comps):
            if c[0] == 'advint': cs.append(eq(s[i], c[1]))
            elif c[0] == 'adv': eqs.append((c[1], s[i]))
            else:
                x = sub(s[i], c[1]) if c[1] is not I0 else s[i]
                if c[2] != 1:
                    if c[2] == -1: x = neg(x)
                    else: raise Unsupported('strided fancy write')
                if not (c[1] is I0 and c[3] is a.exts[i]) and c[2] == 1:
                    cs.append(le(I0, x)); cs.append(lt(x, c[3]))
                o[where[i]] = x
        c2, pos = solve_positions(eqs, B)
        for j in range(nb): o[advat + j] = pos[j]
        return and_(c2, *cs), tuple(o)
    return tuple(exts), fwd, rev, B
def check_adv_bounds(t, e, exts):
    if in_range(t, e): return
    if t.op == 'const' and t.args[0] < 0: t = add(e, t)
    C = Ctx.cur
    nonempty = and_(*[lt(I0, x) for x in exts if x.op != 'const'])
    if not C.holds(implies(nonempty, and_(le(I0, t), lt(t, e)))):
        raise IndexError('index array may be out of bounds: %s vs size %s' % (show(t, 4), show(e, 4)))
def solve_positions(eqs, B):
    """positions p in B with arr_i[p] == target_i for all i, last one in row-major order"""
    ps = ivars(B)
    cond = []
    pos = {}
    todo = []
    for arr, target in eqs:
        todo.append([arr.at(bidx(ps, arr.exts)), target])
    for j, e in enumerate(B):
        if is1(e): pos[j] = I0
    if any(j in pos for j in range(len(B))):
        mp = {ps[j]: pos[j] for j in pos}
        for q in todo: q[0] = subst(q[0], mp)
    progress = True
    while todo and progress:
        progress = False
        for q in list(todo):
            if q not in todo: continue
            body, target = q
            grp = enumeration_group(body, todo)
            if grp is not None:              # np.where / a mask over several axes: all its index arrays at the same position
                g, inner, parts = grp
                cond.append(enumeration_hit(g, [p[1] for p in parts]))
                for p in parts: todo.remove(p)
                todo.append([inner, mk_fun('wh_inv', (g,), tuple(p[1] for p in parts))]); progress = True
                continue
            dep = [j for j in range(len(B)) if j not in pos and ps[j] in body.fv]
            if not dep:
                cond.append(eq(body, target)); todo.remove(q); progress = True
            elif len(dep) == 1:
                j = dep[0]
                c, p = invert(body, ps[j], B[j], target)
                cond.append(c); pos[j] = p
                todo.remove(q); progress = True
                for r in todo: r[0] = subst(r[0], {ps[j]: p})
                break
    if todo: raise Unsupported('cannot invert index arrays')
    for j in range(len(B)):
        if j not in pos: pos[j] = sub(B[j], I1)   # value broadcast along an axis not used by indices: last write
    return and_(*cond), [pos[j] for j in range(len(B))]
def enumeration_group(body, todo):
    if not (body.op == 'bind' and body.args[0] == 'fun' and body.args[1] == 'wh_e' and len(body.args[2][0][0]) > 1): return None
    key = (body.args[2], body.args[3][1])
    parts = {}
    for q in todo:
        b = q[0]
        if b.op == 'bind' and b.args[0] == 'fun' and b.args[1] == 'wh_e' and (b.args[2], b.args[3][1]) == key and b.args[3][0].op == 'const': parts.setdefault(int(b.args[3][0].args[0]), q)
    n = len(body.args[2][0][0])
    if set(parts) != set(range(n)): return None
    return body.args[2][0], body.args[3][1], [parts[i] for i in range(n)]
def enumeration_hit(g, targets):
    vs, exts, c = g
    fr = tuple(fresh('b', 'I', e) for e in exts)
    hit = subst(subst(c, dict(zip(vs, fr))), dict(zip(fr, targets)))
    return and_(hit, *[and_(le(I0, t), lt(t, e)) for t, e in zip(targets, exts) if not in_range(t, e)])
INVERT = {}     # app name -> callable(args, arg position, target)->(cond, value of that argument)
def invert(body, v, ext, target):
    """(cond, p): some v in [0,ext) has body == target iff cond, and the last such v is p (for injective pieces)"""
    if body is v:
        if target.op == 'bind' and target.args[1] == 'wh_inv' and ext is mk_fun('wh_K', (target.args[2][0],), ()): return TRUE, target      # a position of the enumeration (the hit is required separately)
        return (TRUE if in_range(target, ext) else and_(le(I0, target), lt(target, ext))), target
    ats = [a for a in ind_atoms(body) if v in a.fv]
    if ats:
        a = ats[0]; c = a.args[0]
        c1, p1 = invert(assign_ind(body, a, 1), v, ext, target) if v in assign_ind(body, a, 1).fv else _const_piece(assign_ind(body, a, 1), v, c, ext, target)
        c0, p0 = invert(assign_ind(body, a, 0), v, ext, target) if v in assign_ind(body, a, 0).fv else _const_piece(assign_ind(body, a, 0), v, not_(c), ext, target)
        c1 = and_(c1, subst(c, {v: p1})); c0 = and_(c0, not_(subst(c, {v: p0})))
        return or_(c1, c0), ite(and_(c1, or_(not_(c0), lt(p0, p1))), p1, p0)
    if body.op == 'poly':
        # +-atom + rest
        cand = [(m, c) for m, c in items(body) if any(v in a.fv for a, e in m)]
        if len(cand) == 1 and len(cand[0][0]) == 1 and cand[0][0][0][1] == 1 and abs(cand[0][1]) == 1:
            (m, c), = cand
            rest = frompoly({k: x for k, x in items(body) if k != m}, 'I')
            return invert(m[0][0], v, ext, scale(sub(target, rest), c))
    if body.op == 'bind' and body.args[0] == 'fun' and body.args[1] == 'wh_e' and len(body.args[2][0][0]) == 1:
        vs, exts, cond = body.args[2][0]
        if v not in cond.fv:
            inner = body.args[3][1]
            fr = fresh('b', 'I', exts[0])
            g = ((fr,), exts, subst(cond, {vs[0]: fr}))
            k = mk_fun('wh_inv', (g,), (target,))
            hit = subst(cond, {vs[0]: target})
            if not in_range(target, exts[0]): hit = and_(hit, le(I0, target), lt(target, exts[0]))
            K = mk_fun('wh_K', (g,), ())
            if inner is v:
                if ext is K: return hit, k
                return and_(hit, lt(k, ext)) if not Ctx.cur.holds(eq(K, ext)) else hit, k
            c2, p = invert(inner, v, ext, k)
            return and_(hit, c2), p
    if body.op == 'app' and body.args[0] in INVERT:
        pos = [i for i, x in enumerate(body.args[1:]) if v in x.fv]
        if len(pos) == 1:
            r = INVERT[body.args[0]](body.args[1:], pos[0], target)
            if r is not None:
                c, val = r
                c2, p = invert(body.args[1 + pos[0]], v, ext, val)
                return and_(c, c2), p
    raise Unsupported('cannot invert index map %s' % show(body, 4))
def _const_piece(body, v, c, ext, target):
    # body does not depend on v on this piece: only supported for pieces {v == t}
    if c.op == 'eq':
        t = ir._solve_lin(c.args[0], v)
        if t is not None: return eq(body, target), t
    raise Unsupported('cannot invert constant piece')
def getitem(a, key):
    if key is Ellipsis and a.vw is None:
        return Arr(a.store, (a.exts, lambda v: v, lambda s: (TRUE, s)))
    exts, fwd, rev, B = plan(a, key)
    if B is not None:
        r = Arr.make(exts, lambda v: a.at(fwd(v)), a.kind)
        return r
    if not exts: return wrapx(a.at(fwd(())))
    if a.vw is None:
        return Arr(a.store, (exts, fwd, rev))
    f0, r0 = a.vw[1], a.vw[2]
    def rev2(s):
        c, i = r0(s)
        c2, j = rev(i)
        return and_(c, c2), j
    return Arr(a.store, (exts, lambda v: f0(fwd(v)), rev2))
def setitem(a, key, val):
    exts, fwd, rev, B = plan(a, key)
    v = asarray(val)
    if v.kind == 'f' and a.kind == 'i': coerce_check(v, 'i')
    # numpy drops leading unit axes of the value
    while v.ndim > len(exts) and is1(v.exts[0]): v = reshape(v, v.exts[1:])
    if v.ndim > len(exts): raise ShapeError('could not broadcast input array')
    off = len(exts) - v.ndim
    for j, e in enumerate(v.exts):
        if not is1(e) and not dim_eq(e, exts[off + j]):
            raise ShapeError('could not broadcast input array from shape %s into shape %s' % ([show(x, 3) for x in v.exts], [show(x, 3) for x in exts]))
    snap = freeze(v) if v.store is a.store else v
    r0 = a.vw[2] if a.vw is not None else None
    cache = {}
    def full(s):
        if s not in cache:
            if r0 is not None:
                c, i = r0(s)
                c2, j = rev(i)
                cache[s] = (and_(c, c2), j)
            else: cache[s] = rev(s)
        return cache[s]
    a.assign(lambda s: full(s)[0], lambda s: snap.at(bidx(full(s)[1], snap.exts)))

# ---------------------------------------------------------------- shape functions
def flatten_exts(es):
    r = I1
    for e in es: r = mul(r, e)
    return r
def reshape(a, shape, order='C', **k):
    if order == 'F':
        sh = tuple(shape) if isinstance(shape, (tuple, list, Arr)) else (shape,)
        return transpose(reshape(transpose(asarray(a)), sh[::-1]))
    if order != 'C': raise Unsupported('reshape order %r' % (order,))
    a = asarray(a)
    if isinstance(shape, (int, Sc)): shape = (shape,)
    tgt = [dimt(s) for s in shape]
    neg1 = [i for i, t in enumerate(tgt) if t.op == 'const' and t.args[0] == -1]
    total = flatten_exts(a.exts)
    if neg1:
        known = flatten_exts([t for i, t in enumerate(tgt) if i != neg1[0]])
        q = _exact_div(total, known)
        if q is None:
            if const_ext(total) is not None and const_ext(known) is not None: raise ValueError('cannot reshape (inferred axis)')
            if not Ctx.cur.branch(eq(imod(total, known), I0)): raise ValueError('cannot reshape (inferred axis)')
            q = idiv(total, known)
            Ctx.cur.assume(eq(total, mul(q, known)))
        tgt[neg1[0]] = q
    # group alignment
    src = list(a.exts)
    groups = []
    i = j = 0
    while i < len(src) or j < len(tgt):
        if i < len(src) and j < len(tgt) and dim_eq_syn(src[i], tgt[j]):
            groups.append(([i], [j])); i += 1; j += 1; continue
        gi, gj = [], []
        pi = pj = I1
        if i < len(src): gi.append(i); pi = src[i]; i += 1
        if j < len(tgt): gj.append(j); pj = tgt[j]; j += 1
        steps = 0
        while not (pi is pj):
            steps += 1
            if steps > 12: raise Unsupported('reshape grouping')
            # extend the smaller side syntactically: which one divides?
            if i < len(src) and (_exact_div(pj, pi) is not None or j >= len(tgt)):
                gi.append(i); pi = mul(pi, src[i]); i += 1
            elif j < len(tgt):
                gj.append(j); pj = mul(pj, tgt[j]); j += 1
            elif i < len(src): gi.append(i); pi = mul(pi, src[i]); i += 1
            else:
                if Ctx.cur.branch(eq(pi, pj)): break
                raise ValueError('cannot reshape array')
        groups.append((gi, gj))
    regs = []
    for gi, gj in groups:
        if len(gi) >= 2 and len(gj) == 1:
            ds = [src[q] for q in gi if src[q] is not I1]
            if len(ds) >= 2 and flatten_exts(ds) is tgt[gj[0]]:
                for n_ in range(2, len(ds) + 1): PRODEXT.setdefault(flatten_exts(ds[:n_]), (flatten_exts(ds[:n_ - 1]), ds[n_ - 1]))
    def fwd(v):
        o = [None] * len(src)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1: o[gi[0]] = v[gj[0]]; continue
            flat = I0
            for q in gj: flat = add(mul(flat, tgt[q]), v[q])
            rest = flat
            for n_, q in enumerate(reversed(gi)):
                if n_ == len(gi) - 1: o[q] = rest
                else:
                    o[q] = imod(rest, src[q]); rest = idiv(rest, src[q])
        return tuple(o)
    def rev(s):
        o = [None] * len(tgt)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1: o[gj[0]] = s[gi[0]]; continue
            flat = I0
            for q in gi: flat = add(mul(flat, src[q]), s[q])
            rest = flat
            for n_, q in enumerate(reversed(gj)):
                if n_ == len(gj) - 1: o[q] = rest
                else:
                    o[q] = imod(rest, tgt[q]); rest = idiv(rest, tgt[q])
        return TRUE, tuple(o)
    if a.vw is None: return Arr(a.store, (tuple(tgt), fwd, rev))
    f0, r0 = a.vw[1], a.vw[2]
    def rev2(s):
        c, x = r0(s)
        return c, rev(x)[1]
    return Arr(a.store, (tuple(tgt), lambda v: f0(fwd(v)), rev2))
def _mixed_radix(t, ext):
    """i*b + j with i<a, j<b, ext = a*b"""
    if ext in PRODEXT or True:
        for v in t.fv:
            b = VRANGE.get(v)
            if b is None or t.op != 'poly': continue
            rest = sub(t, v)
            if v in rest.fv: continue
            q = _exact_div(rest, b)
            if q is not None and q is not I0:
                ea = _exact_div(ext, b)
                if ea is not None and in_range(q, ea): return True
    return False
RANGE_HOOK.append(_mixed_radix)
def dim_eq_syn(a, b):
    return a is b
def _exact_div(a, b):
    if b is I1: return a
    if a is b: return I1
    bi = items(b)
    if len(bi) != 1: return None
    bm, bc = bi[0]
    out = {}
    for m, c in items(a):
        md = dict(m)
        for x, e in bm:
            if md.get(x, 0) < e: return None
            md[x] -= e
            if md[x] == 0: del md[x]
        if (c / bc).denominator != 1: return None
        out[tuple(sorted(md.items(), key=lambda x: x[0].id))] = c / bc
    return frompoly(out, 'I')
def perm_axes(a, perm):
    perm = [p % a.ndim for p in perm]
    exts = tuple(a.exts[p] for p in perm)
    def fwd(v):
        o = [None] * a.ndim
        for i, p in enumerate(perm): o[p] = v[i]
        return tuple(o)
    def rev(s): return TRUE, tuple(s[p] for p in perm)
    if a.vw is None: return Arr(a.store, (exts, fwd, rev))
    f0, r0 = a.vw[1], a.vw[2]
    def rev2(s):
        c, x = r0(s)
        return c, rev(x)[1]
    return Arr(a.store, (exts, lambda v: f0(fwd(v)), rev2))
def transpose(a, axes=None):
    a = asarray(a)
    return perm_axes(a, axes if axes is not None else list(range(a.ndim))[::-1])
def swapaxes(a, x, y):
    p = list(range(a.ndim)); x %= a.ndim; y %= a.ndim
    p[x], p[y] = p[y], p[x]
    return perm_axes(a, p)
def moveaxis(a, s, d):
    a = asarray(a)
    s = [s] if isinstance(s, int) else list(s); d = [d] if isinstance(d, int) else list(d)
    s = [x % a.ndim for x in s]; d = [x % a.ndim for x in d]
    order = [n for n in range(a.ndim) if n not in s]
    for x, y in sorted(zip(d, s)): order.insert(x, y)
    return perm_axes(a, order)
def squeeze(a, axis=None):
    a = asarray(a)
    if axis is None:
        keep = []
        for i, e in enumerate(a.exts):
            if is1(e): continue
            if e.op != 'const' and bool(wrapx(eq(e, I1))): continue
            keep.append(i)
    else:
        axis = [axis] if isinstance(axis, int) else list(axis)
        axis = [x % a.ndim for x in axis]
        for x in axis:
            if not dim_eq(a.exts[x], I1): raise ValueError('cannot select an axis to squeeze out')
        keep = [i for i in range(a.ndim) if i not in axis]
    r = Arr.make([a.exts[i] for i in keep], lambda v: a.at(tuple(v[keep.index(i)] if i in keep else I0 for i in range(a.ndim))), a.kind)
    return r if keep else r
def expand_dims(a, axis):
    a = asarray(a)
    ax = [axis] if isinstance(axis, int) else list(axis)
    n = a.ndim + len(ax)
    ax = [x % n for x in ax]
    key = tuple(None if i in ax else slice(None) for i in range(n))
    return a[key]
def atleast_1d(a):
    a = asarray(a); return a if a.ndim else reshape(a, (1,))
def atleast_2d(a):
    a = asarray(a)
    if a.ndim == 0: return reshape(a, (1, 1))
    if a.ndim == 1: return a[None, :]
    return a
def ravel(a): return reshape(asarray(a), (-1,))
def astype(a, dt):
    k = kind_of_dtype(dt)
    a = asarray(a)
    if k == a.kind: return a.copy()
    return Arr.make(a.exts, lambda v: coerce(a.at(v), k), k)
def shape_t(s):
    if isinstance(s, (int, Sc)): s = (s,)
    if isinstance(s, Arr): s = (s,) if s.ndim == 0 else tuple(s)
    return tuple(dimt(x) for x in s)
def full(shape, v, dtype=None, **k):
    v = asarray(v)
    exts = shape_t(shape)
    if any(e.op == 'const' and e.args[0] < 0 for e in exts): raise ValueError('negative dimensions')
    r = broadcast_to(v, exts)
    return astype(r, dtype) if dtype is not None else r
def zeros(shape, dtype=float, **k): return full(shape, 0, dtype)
def ones(shape, dtype=float, **k): return full(shape, 1, dtype)
def empty(shape, dtype=float, **k):
    nm = 'uninit!%d' % next(ir._fresh)
    return Arr.make(shape_t(shape), lambda v: app(nm, v, 'R'), kind_of_dtype(dtype) or 'f')
def zeros_like(a, dtype=None, **k): a = asarray(a); return full(a.exts, 0, dtype or a.dtype)
def ones_like(a, dtype=None, **k): a = asarray(a); return full(a.exts, 1, dtype or a.dtype)
def full_like(a, v, dtype=None, **k): a = asarray(a); return full(a.exts, v, dtype or a.dtype)
def empty_like(a, dtype=None, **k): a = asarray(a); return empty(a.exts, dtype or a.dtype)
def arange(a, b=None, step=1, dtype=None):
    if b is None: a, b = 0, a
    if step != 1:
        if all(isinstance(x, int) for x in (a, b, step)): return from_list(list(range(a, b, step)))
        raise Unsupported('arange step')
    lo, hi = num(lift(a)), num(lift(b))
    if lo.sort == 'R' or hi.sort == 'R': raise Unsupported('float arange')
    n = sub(hi, lo)
    r = Arr.make((n,), lambda v: add(lo, v[0]))
    return astype(r, dtype) if dtype is not None else r
def eye(n, m=None, dtype=float, **k):
    e = dimt(n); e2 = e if m is None else dimt(m)
    return Arr.make((e, e2), lambda v: ite(eq(v[0], v[1]), const(1, 'R'), const(0, 'R')), 'f')
identity = eye
def diag(a):
    a = asarray(a)
    if a.ndim == 1: return Arr.make((a.exts[0], a.exts[0]), lambda v: ite(eq(v[0], v[1]), num(a.at((v[0],))), const(0, 'R')), a.kind)
    return Arr.make((a.exts[0],), lambda v: a.at((v[0], v[0])), a.kind)
def repeat(a, n, axis=None):
    a = asarray(a)
    if axis is None: a = ravel(a); axis = 0
    axis %= a.ndim
    n = dimt(n)
    e = mul(a.exts[axis], n)
    exts = list(a.exts); exts[axis] = e
    if not is1(a.exts[axis]): PRODEXT.setdefault(e, (a.exts[axis], n))
    def body(v):
        v = list(v)
        v[axis] = I0 if is1(a.exts[axis]) else idiv(v[axis], n)
        return a.at(tuple(v))
    return Arr.make(exts, body, a.kind)
def tile(a, reps):
    a = asarray(a)
    reps = [dimt(x) for x in (reps if isinstance(reps, (tuple, list)) else (reps,))]
    nd = builtins.max(a.ndim, len(reps))
    ae = [I1] * (nd - a.ndim) + list(a.exts); reps = [I1] * (nd - len(reps)) + reps
    exts = [mul(x, y) for x, y in zip(ae, reps)]
    def body(v):
        o = []
        for i in range(nd):
            if is1(reps[i]): o.append(v[i])
            elif is1(ae[i]): o.append(I0)
            else: o.append(imod(v[i], ae[i]))
        return a.at(tuple(o[nd - a.ndim:]))
    return Arr.make(exts, body, a.kind)
def concatenate(xs, axis=0, dim=None, **k):
    if dim is not None: axis = dim
    xs = [asarray(x) for x in xs]
    if len(xs) == 0: raise ValueError('need at least one array to concatenate')
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs): raise ValueError('all the input array dimensions must match')
    axis %= nd
    kind = 'f' if any(x.kind == 'f' for x in xs) else ('i' if any(x.kind == 'i' for x in xs) else 'b')
    for x in xs[1:]:
        for j in range(nd):
            if j != axis and not dim_eq(x.exts[j], xs[0].exts[j]): raise ShapeError('concatenate shapes')
    offs = [I0]
    for x in xs: offs.append(add(offs[-1], x.exts[axis]))
    exts = list(xs[0].exts); exts[axis] = offs[-1]
    def body(v):
        r = None
        for x, o in reversed(list(zip(xs, offs))):
            w = list(v); w[axis] = sub(v[axis], o) if o is not I0 else v[axis]
            t = coerce(x.at(tuple(w)), kind)
            r = t if r is None else ite(lt(v[axis], nxt), t, r)
            nxt = o
        return r
    R = Arr.make(exts, body, kind)
    if nd == 1: R.parts = (R.store.cell, [x.copy() for x in xs])
    return R
def stack(xs, axis=0):
    return concatenate([expand_dims(x, axis) for x in xs], axis)
def vstack(xs): return concatenate([atleast_2d(x) for x in xs], 0)
def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)
def as_strided(a, shape=None, strides=None, **k):
    a = asarray(a)
    exts = shape_t(shape)
    maps = []
    for e, s in zip(exts, strides):
        if isinstance(s, int) and s == 0: maps.append(None)
        elif isinstance(s, tuple) and s[0] == 'stride' and s[1] == id(a.store): maps.append(s[2])
        else: raise Unsupported('as_strided')
    used = [m for m in maps if m is not None]
    if sorted(used) != list(range(a.ndim)): raise Unsupported('as_strided')
    for e, m in zip(exts, maps):
        if m is not None and not dim_eq(e, a.exts[m]): raise Unsupported('as_strided extents')
    return Arr.make(exts, lambda v: a.at(tuple(v[maps.index(i)] for i in range(a.ndim))), a.kind)
def broadcast_arrays(*xs):
    e = bcast([asarray(x).exts for x in xs])
    return [broadcast_to(x, e) for x in xs]

# ---------------------------------------------------------------- reductions
def norm_axes(a, axis):
    if axis is None: return list(range(a.ndim))
    if isinstance(axis, (int,)): axis = (axis,)
    out = []
    for x in axis:
        x = int(x)
        if x < -a.ndim or x >= a.ndim: raise IndexError('axis %d is out of bounds for array of dimension %d' % (x, a.ndim))
        out.append(x % a.ndim)
    return out
def _reduce(a, axis, keepdims, f, lazy=False):
    """f(list of (var, ext), element term) -> term"""
    a = asarray(a)
    axs = norm_axes(a, axis)
    keep = [i for i in range(a.ndim) if i not in axs]
    exts = [a.exts[i] if i in keep else I1 for i in range(a.ndim)] if keepdims else [a.exts[i] for i in keep]
    rv = {i: fresh('r', 'I', a.exts[i]) for i in axs}
    rd, ae, nd = a.reader(), a.exts, a.ndim
    def body(v):
        idx = [None] * nd
        for i in axs: idx[i] = rv[i]
        for n, i in enumerate(keep): idx[i] = v[i] if keepdims else v[n]
        return f([(rv[i], ae[i]) for i in axs], rd(tuple(idx)))
    r = (Arr.lazy if lazy and exts else Arr.make)(exts, body)
    if not exts: return wrapx(r.store.body)
    return r
def reduce_sum(a, axis=None, keepdims=False, **k):
    def f(vs, t):
        t = num(t)
        for v, e in reversed(vs): t = mk_sum(v, e, t)
        return t
    a = asarray(a)
    return _reduce(a, axis, keepdims, f, lazy=True)
def sum(a, axis=None, keepdims=False, dtype=None, dim=None, initial=None, where=True, **k):
    if where is not True: a = globals()['where'](where, a, 0)
    if initial is not None: return reduce_sum(a, axis if dim is None else dim, keepdims) + initial
    if type(a).__name__ == 'generator': a = list(a)
    if isinstance(a, (list, tuple)) and a and any(isinstance(x, Arr) for x in a): a = from_list(list(a))
    return reduce_sum(a, axis if dim is None else dim, keepdims)
def reduce_minmax(a, axis, keepdims, which):
    a = asarray(a)
    axs = norm_axes(a, axis)
    for x in axs:
        if const_ext(a.exts[x]) == 0: raise ValueError('zero-size array to reduction operation')
        if a.exts[x].op != 'const' and a.exts[x] not in POSDIM and not Ctx.cur.holds(lt(I0, a.exts[x])):
            if not bool(wrapx(lt(I0, a.exts[x]))): raise ValueError('zero-size array to reduction operation')
    def f(vs, t):
        t = num(t)
        for v, e in reversed(vs): t = mk_min(v, e, t) if which == 'min' else mk_max(v, e, t)
        return t
    return _reduce(a, axis, keepdims, f)
def amin(a, axis=None, keepdims=False): return reduce_minmax(a, axis, keepdims, 'min')
def amax(a, axis=None, keepdims=False): return reduce_minmax(a, axis, keepdims, 'max')
def _extreme(a, axis, keepdims, dim, keepdim, which):
    """the method min/max: numpy's reduction, or (with dim=) torch's pair of values and indices"""
    if dim is None: return reduce_minmax(a, axis, keepdims, which)
    from collections import namedtuple
    return namedtuple('extreme', 'values indices')(reduce_minmax(a, dim, keepdim, which), argminmax(a, dim, which, keepdim))
def argminmax(a, axis, which, keepdims=False):
    a = asarray(a)
    if axis is None:
        if a.ndim != 1: raise Unsupported('argmin without axis')
        axis = 0
    def f(vs, t):
        (v, e), = vs
        return mk_argmin(v, e, num(t) if which == 'min' else neg(num(t)))
    return _reduce(a, axis, keepdims, f)
def argmin(a, axis=None, keepdims=False): return argminmax(a, axis, 'min', keepdims)
def argmax(a, axis=None, keepdims=False): return argminmax(a, axis, 'max', keepdims)
def reduce_any(a, axis=None, keepdims=False):
    def f(vs, t):
        t = boolify(t)
        for v, e in reversed(vs): t = mk_any([v], [e], t)
        return t
    return _reduce(asarray(a), axis, keepdims, f)
def any(a, axis=None, keepdims=False):
    if type(a).__name__ == 'generator': return builtins.any(a)
    return reduce_any(a, axis, keepdims)
def all(a, axis=None, keepdims=False):
    if type(a).__name__ == 'generator': return builtins.all(a)
    r = reduce_any(logical_not(asarray(a)), axis, keepdims)
    return logical_not(r) if isinstance(r, Arr) else (not r if isinstance(r, bool) else ~r)
def mean(a, axis=None, keepdims=False, **k):
    a = asarray(a)
    n = I1
    for x in norm_axes(a, axis): n = mul(n, a.exts[x])
    return reduce_sum(a, axis, keepdims) / wrap(n)
def var(a, axis=None, keepdims=False, ddof=0):
    m = mean(a, axis, True) if axis is not None else mean(a)
    d = (asarray(a) - m) ** 2
    if ddof == 0: return mean(d, axis, keepdims)
    n = I1
    for x in norm_axes(d, axis): n = mul(n, d.exts[x])
    return reduce_sum(d, axis, keepdims) / (wrap(n) - ddof)
def std(a, axis=None, keepdims=False, ddof=0): return sqrt(var(a, axis, keepdims, ddof))
def fixed_ext(e):
    """the extent as a constant, if it provably has one (x[..., :2] of an axis of length >= 2)"""
    n = const_ext(e)
    if n is None:
        for n in (2, 1, 3):
            if Ctx.cur is not None and Ctx.cur.holds(eq(e, const(n, 'I'))): return n
        return None
    return n
def prod(a, axis=None, dtype=None, keepdims=False, **k):
    a = asarray(a)
    def f(vs, t):
        for v, e in reversed(vs):
            n = fixed_ext(e)
            if n is None: raise Unsupported('prod over symbolic axis')
            r = I1
            for i in range(n): r = mul(r, num(subst(t, {v: const(i, 'I')})))
            t = r
        return toreal(num(t)) if kind_of_dtype(dtype) == 'f' and dtype is not None else num(t)
    return _reduce(a, axis, keepdims, f)
def cumsum(*a, **k): raise Unsupported('cumsum')
def norm(x, ord=None, axis=None, keepdims=False, dim=None, **k):
    if dim is not None: axis = dim
    x = asarray(x)
    if axis is None and x.ndim != 1 and ord is not None: raise Unsupported('matrix norm')
    axs = norm_axes(x, axis)
    if len(axs) == 2 and ord not in (None, 'fro'): raise Unsupported('matrix norm')
    if len(axs) > 2 and axis is not None: raise ValueError('Improper number of dimensions to norm.')
    if isinstance(ord, (int, float)) and ord == 1: return reduce_sum(abs(x), axis, keepdims)
    if isinstance(ord, float) and ord == float('inf') or (isinstance(ord, Sc) and ord.t is INF): return reduce_minmax(abs(x), axis, keepdims, 'max')
    if ord not in (None, 2, 'fro'):
        p = ord
        return reduce_sum(abs(x) ** p, axis, keepdims) ** (1 / p)
    rd = x.reader()
    return sqrt(reduce_sum(Arr.lazy(x.exts, lambda v: spow(toreal(num(rd(v))), const(2, 'I')), 'f'), axis, keepdims))

# ---------------------------------------------------------------- elementwise functions
def _u(name):
    def f(x, *a, out=None, where=True, **k):
        if out is not None or where is not True: raise Unsupported('out/where of ufunc')
        return elementwise(lambda t: fn(name, t), x)
    f.__name__ = name
    return f
exp, log, sqrt_, sin, cos, tanh, sinh, cosh, arctan, arcsin, cbrt = [_u(n) for n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin', 'cbrt')]
def sqrt(x, **k): return elementwise(lambda t: fn('sqrt', t), x)
def sign(x): return elementwise(lambda t: fn('sign', t), x)
def abs(x, **k):
    if isinstance(x, (int, ir.Fr)): return builtins.abs(x)
    return elementwise(sabs, x)
absolute = fabs = abs
def square(x): return asarray(x) * x if isinstance(x, Arr) else asarray(x) * asarray(x)
def power(a, b): return elementwise(spow, a, b)
def log1p(x): return log(1 + asarray(x))
def expm1(x): return exp(asarray(x)) - 1
def negative(x): return elementwise(neg, x)
def add_np(a, b): return elementwise(add_, a, b)
def subtract(a, b): return elementwise(sub, a, b)
def multiply(a, b): return elementwise(mul_, a, b)
def true_divide(a, b): return elementwise(div, a, b)
divide = true_divide
def reciprocal(a): return elementwise(lambda t: inv(toreal(num(t))), a)
def mod(a, b): return elementwise(simod, a, b)
remainder = mod
def floor_divide(a, b): return elementwise(sidiv, a, b)
def arctan2(a, b): return elementwise(lambda x, y: fn('arctan2', x, y), a, b)
def hypot(a, b): return elementwise(lambda x, y: fn('sqrt', add(mul(x, x), mul(y, y))), a, b)
def _nanlift(f):
    def g(a, b):
        na, nb = tnan(a), tnan(b)
        if na is FALSE and nb is FALSE: return f(a, b)
        return ite(na, NAN, ite(nb, NAN, f(a, b)))
    return g
def tnan(t):
    """is the element NaN?"""
    t = num(t)
    if NAN not in t.fv: return FALSE
    return splitfn_b(t, lambda p: TRUE if ir._dominated(p) == 'nan' else FALSE)
def tinf(t, sgn=0):
    t = num(t)
    if INF not in t.fv: return FALSE
    def f(p):
        d = ir._dominated(p)
        if d in (None, 'nan') or not builtins.any(a is INF for m, c in items(p) for a, e in m): return FALSE
        return TRUE if sgn == 0 or d == sgn else FALSE
    return splitfn_b(t, f)
def _max(a, b): return ite(le(b, a), num(a), num(b))
def _min(a, b): return ite(le(a, b), num(a), num(b))
def maximum(a, b, **k): return elementwise(_nanlift(_max), a, b)
def minimum(a, b, **k): return elementwise(_nanlift(_min), a, b)
def fmax(a, b): return elementwise(lambda x, y: ite(tnan(x), num(y), ite(tnan(y), num(x), _max(x, y))), a, b)
def fmin(a, b): return elementwise(lambda x, y: ite(tnan(x), num(y), ite(tnan(y), num(x), _min(x, y))), a, b)
def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = asarray(a)
    if lo is not None: r = asarray(maximum(r, lo))
    if hi is not None: r = asarray(minimum(r, hi))
    if out is not None:
        out.set_all(r); return out
    return r if r.ndim else r.item()
def isnan(x): return elementwise(tnan, x)
def isinf(x): return elementwise(tinf, x)
def isfinite(x): return elementwise(lambda t: not_(or_(tnan(t), tinf(t))), x)
def isposinf(x): return elementwise(lambda t: tinf(t, 1), x)
def isneginf(x): return elementwise(lambda t: tinf(t, -1), x)
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    hi = BIG if posinf is None else num(lift(posinf)); lo = neg(BIG) if neginf is None else num(lift(neginf))
    nv = lift(nan)
    r = elementwise(lambda t: ite(tnan(t), nv, ite(tinf(t, 1), hi, ite(tinf(t, -1), lo, t))), x)
    if not copy and isinstance(x, Arr):
        if x.kind == 'f': x.set_all(r)
        return x
    return r
def isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    return elementwise(lambda x, y: le(sabs(sub(x, y)), add(fconst(atol), mul(fconst(rtol), sabs(num(y))))), a, b)
def allclose(a, b, **k): return all(isclose(a, b, **k))
allclose.passes_on = True
def array_equal(a, b): return all(asarray(a) == b)
def logical_not(x): return elementwise(lambda t: not_(boolify(t)), x)
def logical_and(a, b): return elementwise(lambda x, y: and_(boolify(x), boolify(y)), a, b)
def logical_or(a, b): return elementwise(lambda x, y: or_(boolify(x), boolify(y)), a, b)
def heaviside(a, h): return elementwise(lambda x, y: ite(lt(I0, x), const(1, 'R'), ite(eq(x, I0), num(y), const(0, 'R'))), a, h)
def nonzero(c):
    c = asarray(c)
    if c.kind != 'b': c = elementwise(boolify, c)
    vs = ivars(c.exts)
    cond = c.at(tuple(I0 if is1(e) else v for v, e in zip(vs, c.exts)))
    keep = [i for i in range(c.ndim) if not is1(c.exts[i])] or [0]          # axes of length one carry no choice
    kv, ke = tuple(vs[i] for i in keep), tuple(c.exts[i] for i in keep)
    K = wh_K(kv, ke, cond)
    return tuple(Arr.make((K,), lambda v, i=i: wh_e(kv, ke, cond, keep.index(i), v[0]) if i in keep else I0, 'i') for i in range(c.ndim))
def flatnonzero(c): return nonzero(ravel(c))[0]
def argwhere(c): raise Unsupported('argwhere')
def count_nonzero(a, axis=None, keepdims=False): return reduce_sum(elementwise(lambda t: ind(boolify(t)), a, kind='i'), axis, keepdims)
def where(c, a=None, b=None):
    if a is None and b is None: return nonzero(atleast_1d(c))
    return elementwise(lambda x, y, z: ite(boolify(x), y, z), c, a, b)
def copy(a, **k): return asarray(a).copy()
def ascontiguousarray(a): return asarray(a)
def member(a, target):
    """is target among the entries of the 1-d index array a? -> (cond, bound on values)"""
    ps = getattr(a, 'parts', None)
    if ps is not None and a.vw is None and ps[0] is a.store.cell:        # concatenation: member of one of the pieces
        return or_(*[member(x, target) for x in ps[1]])
    v = fresh('i', 'I', a.exts[0])
    return _member(a.at((v,)), v, a.exts[0], target)
def _member(body, v, ext, target): return invert(body, v, ext, target)[0]
def value_bounds(t):
    s = set()
    for x in prove_all_subterms(t):
        if x.op == 'bind' and x.args[0] == 'fun' and x.args[1] == 'wh_e': s.add(x.args[2][0][1][int(x.args[3][0].args[0])])
    return s
def prove_all_subterms(t):
    import prove
    return prove.all_subterms(t)
def _set_from_index(cond_of, arrs):
    bs = set()
    for a in arrs:
        v = fresh('i', 'I', a.exts[0])
        t = a.at((v,))
        b = value_bounds(t)
        if not b and t is v: b = {a.exts[0]}
        for x in prove_all_subterms(t):
            if x is v and t is v: b.add(a.exts[0])
        bs |= b
    bs = {b for b in bs}
    if len(bs) != 1: raise Unsupported('cannot bound the values of an index set')
    e = bs.pop()
    v = fresh('i', 'I', e)
    c = cond_of(v)
    return Arr.make((wh_K((v,), (e,), c),), lambda w: wh_e((v,), (e,), c, 0, w[0]), 'i')
def unique(a, **k):
    a = asarray(a)
    if k: raise Unsupported('unique options')
    if a.ndim != 1: a = ravel(a)
    if a.exts[0] is I0: return a
    return _set_from_index(lambda v: member(a, v), [a])
def intersect1d(a, b, **k):
    a, b = asarray(a), asarray(b)
    r = _set_from_index(lambda v: and_(member(a, v), member(b, v)), [a, b])
    if not k.get('return_indices'): return r
    def pos(x):
        v = fresh('i', 'I', x.exts[0])
        return Arr.make(r.exts, lambda w: invert(x.at((v,)), v, x.exts[0], r.at(w))[1], 'i')
    return r, pos(a), pos(b)
intersect1d.handles = {'return_indices'}
def union1d(a, b): return unique(concatenate([a, b]))
def setdiff1d(a, b, **k):
    a, b = asarray(a), asarray(b)
    return _set_from_index(lambda v: and_(member(a, v), not_(member(b, v))), [a])
def isin(a, b, invert=False, **k):
    b = asarray(b)
    if invert: return elementwise(lambda t: not_(member(b, t)), a)
    return elementwise(lambda t: member(b, t), a)
in1d = isin
def sort(a, axis=-1): raise Unsupported('sort')
def take(a, i, axis=None):
    a = asarray(a)
    if axis is None: return ravel(a)[i]
    return a[(slice(None),) * (axis % a.ndim) + (i,)]
def take_along_axis(a, i, axis):
    a, i = asarray(a), asarray(i); axis %= a.ndim
    def body(v):
        w = list(bidx(v, a.exts)); w = [v[j] if j != axis else None for j in range(a.ndim)]
        w[axis] = i.at(bidx(v, i.exts)); return a.at(tuple(w))
    return Arr.make(tuple(i.exts[j] if j == axis else a.exts[j] for j in range(a.ndim)), body, a.kind)
def apply_along_axis(f, axis, a, *args, **k):
    a = asarray(a); axis %= a.ndim
    rest = [i for i in range(a.ndim) if i != axis]
    vs = ivars([a.exts[i] for i in rest])
    def row(v):
        idx = [None] * a.ndim
        idx[axis] = v[0]
        for i, w in zip(rest, vs): idx[i] = w
        return a.at(tuple(idx))
    r = f(Arr.make((a.exts[axis],), row, a.kind), *args, **k)
    if isinstance(r, Arr) and r.ndim > 0:
        return Arr.make(tuple(a.exts[i] for i in rest[:axis]) + r.exts + tuple(a.exts[i] for i in rest[axis:]),
                        lambda v: subst(r.at(v[axis:axis + r.ndim]), dict(zip(vs, v[:axis] + v[axis + r.ndim:]))), r.kind)
    t = lift(r) if not isinstance(r, Arr) else r.at(())
    return Arr.make([a.exts[i] for i in rest], lambda v: subst(t, dict(zip(vs, v))), kind_of_term(t))
apply_along_axis.passes_on = True
def logsumexp(a, axis=None, keepdims=False, b=None, dim=None, keepdim=False, **k):
    if b is not None: raise Unsupported('logsumexp b')
    if dim is not None: axis = dim
    keepdims = keepdims or keepdim
    return log(reduce_sum(exp(asarray(a)), axis, keepdims))
def softmax(a, axis=None):
    e = exp(asarray(a)); return e / reduce_sum(e, axis, True)
def average(a, axis=None, weights=None, keepdims=False):
    a = asarray(a)
    if weights is None: return mean(a, axis, keepdims)
    w = asarray(weights)
    if w.ndim != a.ndim:
        if axis is None or w.ndim != 1: raise TypeError('weights')
        ax = norm_axes(a, axis)[0]
        w = w[tuple(slice(None) if i == ax else None for i in range(a.ndim))]
        w = broadcast_to(w, a.exts)
    return reduce_sum(a * w, axis, keepdims) / reduce_sum(w, axis, keepdims)

# ---------------------------------------------------------------- products
def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0: raise ValueError('matmul: scalar operand')
    sa, sb = a.ndim == 1, b.ndim == 1
    if sa: a = a[None, :]
    if sb: b = b[:, None]
    if not dim_eq(a.exts[-1], b.exts[-2]): raise ShapeError('matmul: mismatch')
    be = bcast([a.exts[:-2], b.exts[:-2]])
    e = a.exts[-1]
    k = fresh('r', 'I', e)
    def body(v):
        x = a.at(bidx(v[:-2], a.exts[:-2]) + (v[-2], k)); y = b.at(bidx(v[:-2], b.exts[:-2]) + (k, v[-1]))
        return mk_sum(k, e, mul(x, y))
    r = Arr.make(be + (a.exts[-2], b.exts[-1]), body)
    if sa: r = r[..., 0, :]
    if sb: r = r[..., 0]
    return r
def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if b.ndim > 2: raise Unsupported('dot')
    return matmul(a, b)
def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1: return matmul(a, b)
    raise Unsupported('inner')
def outer(a, b): return ravel(a)[:, None] * ravel(b)[None, :]
def vecdot(a, b, axis=-1): return reduce_sum(asarray(a) * b, axis)
def einsum(spec, *ops, **k):
    ops = [asarray(o) for o in ops]
    spec = spec.replace(' ', '')
    if '->' not in spec:
        letters = spec.replace(',', '').replace('.', '')
        spec += '->' + ('...' if '...' in spec else '') + ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    lhs, rhs = spec.split('->')
    ins = lhs.split(',')
    if len(ins) != len(ops): raise ValueError('einsum operands')
    ne = 0
    for s, o in zip(ins, ops):
        if '...' in s: ne = builtins.max(ne, o.ndim - len(s.replace('...', '')))
    ell = ['@%d' % i for i in range(ne)]
    def expand(s, nd=None):
        if '...' in s:
            a, b = s.split('...')
            n = ne if nd is None else nd - len(a) - len(b)
            return list(a) + ell[ne - n:] + list(b)
        return list(s)
    labs = [expand(s, o.ndim) for s, o in zip(ins, ops)]
    ext = {}
    for l, o in zip(labs, ops):
        if len(l) != o.ndim: raise ValueError('einstein sum subscripts string does not match operand rank')
        for c, e in zip(l, o.exts):
            if c in ext and not is1(ext[c]):
                if not is1(e) and not dim_eq(ext[c], e): raise ShapeError('einsum dims')
            else: ext[c] = e
    out = expand(rhs)
    sums = [c for c in ext if c not in out]
    sv = {c: fresh('r', 'I', ext[c]) for c in sums}
    def body(v):
        mp = dict(zip(out, v)); mp.update(sv)
        t = const(1, 'I')
        for l, o in zip(labs, ops): t = mul(t, num(o.at(tuple(I0 if is1(e) else mp[c] for c, e in zip(l, o.exts)))))
        for c in sums: t = mk_sum(sv[c], ext[c], t)
        return t
    r = Arr.make([ext[c] for c in out], body)
    return r if out else wrapx(r.store.body)
def trace(a, axis1=0, axis2=1):
    a = asarray(a)
    if a.ndim != 2: raise Unsupported('trace')
    return einsum('ii->', a)

# ---------------------------------------------------------------- linear algebra (assumed contracts, see linalg axioms)
def _batch(a): return a.exts[:-2]
def solve(A, b):
    A, b = asarray(A), asarray(b)
    e = A.exts[-1]
    if not dim_eq(e, A.exts[-2]): raise ValueError('Last 2 dimensions of the array must be square')
    vec = b.ndim == 1
    if vec: b = b[:, None]
    if not dim_eq(b.exts[-2], e): raise ValueError('solve: mismatch')
    be = bcast([A.exts[:-2], b.exts[:-2]])
    def body(v):
        i, j, l = fresh('b', 'I', e), fresh('b', 'I', e), fresh('b', 'I', e)
        M = A.at(bidx(v[:-2], A.exts[:-2]) + (i, j))
        r = b.at(bidx(v[:-2], b.exts[:-2]) + (l, v[-1]))
        return mk_fun('solve', (((i, j), (e, e), toreal(num(M))), ((l,), (e,), toreal(num(r)))), (v[-2],))
    r = Arr.make(be + (e, b.exts[-1]), body)
    return r[..., 0] if vec else r
def inv_np(A):
    A = asarray(A)
    return solve(A, broadcast_to(eye(wrap(A.exts[-1])), A.exts))
def eigh(A, **k):
    A = asarray(A)
    e = A.exts[-1]
    if not dim_eq(e, A.exts[-2]): raise ValueError('Last 2 dimensions must be square')
    def grp(v):
        i, j = fresh('b', 'I', e), fresh('b', 'I', e)
        return ((i, j), (e, e), toreal(num(A.at(tuple(v) + (i, j)))))
    w = Arr.make(A.exts[:-1], lambda v: mk_fun('eigval', (grp(v[:-1]),), (v[-1],)), 'f')
    V = Arr.make(A.exts, lambda v: mk_fun('eigvec', (grp(v[:-2]),), (v[-2], v[-1])), 'f')
    return w, V
def svd(A, full_matrices=True, compute_uv=True, **k):
    A = asarray(A)
    n, m = A.exts[-2], A.exts[-1]
    if full_matrices: raise Unsupported('full svd')
    if dim_eq(n, m) or Ctx.cur.holds(le(m, n)): r = m
    elif Ctx.cur.holds(le(n, m)): r = n
    else: raise Unsupported('svd of undetermined orientation')
    def grp(v):
        i, j = fresh('b', 'I', n), fresh('b', 'I', m)
        return ((i, j), (n, m), toreal(num(A.at(tuple(v) + (i, j)))))
    be = A.exts[:-2]
    U = Arr.make(be + (n, r), lambda v: mk_fun('svdU', (grp(v[:-2]),), (v[-2], v[-1])), 'f')
    s = Arr.make(be + (r,), lambda v: mk_fun('svdS', (grp(v[:-1]),), (v[-1],)), 'f')
    Vh = Arr.make(be + (r, m), lambda v: mk_fun('svdV', (grp(v[:-2]),), (v[-2], v[-1])), 'f')
    return U, s, Vh

# ---------------------------------------------------------------- further spellings
def diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarray(a); axis1 %= a.ndim; axis2 %= a.ndim
    if offset != 0 or axis1 == axis2 or not dim_eq(a.exts[axis1], a.exts[axis2]): raise Unsupported('diagonal')
    rest = [j for j in range(a.ndim) if j not in (axis1, axis2)]
    def body(v):
        w = [None] * a.ndim; w[axis1] = w[axis2] = v[-1]
        for j, x in zip(rest, v): w[j] = x
        return a.at(tuple(w))
    return Arr.make(tuple(a.exts[j] for j in rest) + (a.exts[axis1],), body, a.kind)
def less(a, b): return elementwise(lt, a, b)
def less_equal(a, b): return elementwise(le, a, b)
def greater(a, b): return elementwise(lambda x, y: lt(y, x), a, b)
def greater_equal(a, b): return elementwise(lambda x, y: le(y, x), a, b)
def equal(a, b): return elementwise(eqt, a, b)
def not_equal(a, b): return elementwise(lambda x, y: not_(eqt(x, y)), a, b)
def logical_xor(a, b): return elementwise(lambda x, y: not_(iff(boolify(x), boolify(y))), a, b)
def bitwise_not(a):
    a = asarray(a)
    if a.kind != 'b': raise Unsupported('invert on non-bool')
    return elementwise(not_, a)
def bitwise_and(a, b): return elementwise(lambda x, y: bits(x, y, and_), a, b)
def bitwise_or(a, b): return elementwise(lambda x, y: bits(x, y, or_), a, b)
def positive(a): return asarray(a).copy()
def float_power(a, b): return elementwise(lambda x, y: spow(toreal(num(x)), y), a, b)
def asanyarray(a, *x, **k): return asarray(a, *x, **k)
asanyarray.passes_on = True
def atleast_3d(a):
    a = asarray(a)
    return a if a.ndim >= 3 else (a[:, :, None] if a.ndim == 2 else (a[None, :, None] if a.ndim == 1 else a.reshape(1, 1, 1)))
def flip(a, axis=None):
    a = asarray(a); axs = norm_axes(a, axis)
    return Arr.make(a.exts, lambda v: a.at(tuple(sub(sub(a.exts[j], I1), v[j]) if j in axs else v[j] for j in range(a.ndim))), a.kind)
def roll(a, n, axis=None):
    a = asarray(a)
    if axis is None or not isinstance(n, int): raise Unsupported('roll')
    axis %= a.ndim
    return Arr.make(a.exts, lambda v: a.at(tuple(imod(sub(v[j], const(n, 'I')), a.exts[j]) if j == axis else v[j] for j in range(a.ndim))), a.kind)
def diff(a, n=1, axis=-1):
    a = asarray(a)
    if n != 1: raise Unsupported('diff')
    pre = (slice(None),) * (axis % a.ndim)
    return a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]
def ptp(a, axis=None, keepdims=False): return amax(a, axis, keepdims) - amin(a, axis, keepdims)
def compress(c, a, axis=None):
    if axis is None: raise Unsupported('compress without axis')
    return take(a, nonzero(asarray(c))[0], axis)
def select(conds, vals, default=0):
    r = asarray(default)
    for c, v in list(zip(conds, vals))[::-1]: r = where(c, v, r)
    return r
def nansum(a, axis=None, keepdims=False): return reduce_sum(where(isnan(a), 0., a), axis, keepdims)
def vdot(a, b): return reduce_sum(ravel(asarray(a)) * ravel(asarray(b)))
def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, int): axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    x, y = [[i] if isinstance(i, int) else list(i) for i in axes]
    x = [i % a.ndim for i in x]; y = [i % b.ndim for i in y]
    la = [chr(97 + i) for i in range(a.ndim)]; lb = [chr(110 + i) for i in range(b.ndim)]
    for i, j in zip(x, y): lb[j] = la[i]
    out = [c for i, c in enumerate(la) if i not in x] + [c for j, c in enumerate(lb) if j not in y]
    return einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out), a, b)
def dstack(xs): return concatenate([atleast_3d(x) for x in xs], 2)
def column_stack(xs): return concatenate([asarray(x)[:, None] if asarray(x).ndim == 1 else asarray(x) for x in xs], 1)
def copyto(dst, src): dst.set_all(src)
def put_along_axis(a, i, vals, axis):
    i = asarray(i); axis %= a.ndim
    key = []
    for j in range(a.ndim):
        if j == axis: key.append(i)
        else: key.append(arange(wrap(a.exts[j])).reshape(tuple(-1 if n == j else 1 for n in range(a.ndim))))
    a[tuple(key)] = broadcast_to(asarray(vals), i.exts)
def triu(a, k=0):
    return elementwise(lambda t: t, _tri(a, lambda i, j: le(add(i, const(k, 'I')), j)))
def tril(a, k=0):
    return elementwise(lambda t: t, _tri(a, lambda i, j: le(j, add(i, const(k, 'I')))))
def _tri(a, keep):
    a = asarray(a)
    return Arr.make(a.exts, lambda v: mul(ind(keep(v[-2], v[-1])), num(a.at(tuple(v)))), a.kind)
def ix_(*xs): return tuple(asarray(x).reshape(tuple(-1 if n == j else 1 for n in range(len(xs)))) for j, x in enumerate(xs))
def exp2(a): return elementwise(lambda t: fn('exp', mul(toreal(num(t)), fn('log', const(2, 'R')))), a)
def log2(a): return log(asarray(a)) / wrapx(fn('log', const(2, 'R')))
def log10(a): return log(asarray(a)) / wrapx(fn('log', const(10, 'R')))
def split(a, n, axis=0):
    a = asarray(a); axis %= a.ndim; e = const_ext(a.exts[axis])
    if not isinstance(n, int) or e is None or e % n: raise Unsupported('split')
    return [a[(slice(None),) * axis + (slice(i * (e // n), (i + 1) * (e // n)),)] for i in range(n)]
def append(a, b, axis=None):
    return concatenate([ravel(asarray(a)), ravel(asarray(b))]) if axis is None else concatenate([asarray(a), asarray(b)], axis)
for _n, _f in list(vars(Arr).items()):
    if not _n.startswith('__'): setattr(Arr, _n, strict_kwargs(_f))
