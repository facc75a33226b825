"""Symbolic scalars, path exploration, obligations."""
import time
from fractions import Fraction as Fr
import ir, prove
from ir import *

class PathEnd(Exception):
    """the current path is infeasible or cut"""
class Ctx:
    cur = None
    def __init__(self, prefix=()):
        self.prefix = list(prefix); self.trace = []
        self.facts = []; self.univ = []; self.known = {}
        self.loopdepth = 0; self.conds = None
        self.taint = None
    # ---- assumptions
    def assume(self, c):
        c = boolify(c)
        if c is FALSE: raise PathEnd()
        if c is TRUE: return
        if c.op == 'and':
            for x in c.args: self.assume(x)
            return
        if c in self.known: 
            if self.known[c]: return
            raise PathEnd()
        self.facts.append(c)
        self.known[c] = True
        self.known[not_(c)] = False
    def assume_forall(self, vs, exts, body, name=''):
        u = prove.Universal(vs, exts, body, name)
        self.univ.append(u)
    # ---- branching
    def branch(self, c):
        c = boolify(c)
        if c is TRUE: return True
        if c is FALSE: return False
        k = self.known.get(c)
        if k is not None: return k
        c2 = simplify_under(c, self.known, self.facts)
        if c2 is TRUE: return True
        if c2 is FALSE: return False
        k = self.known.get(c2)
        if k is not None: return k
        i = len(self.trace)
        if i < len(self.prefix):
            d, op = self.prefix[i]
        else:
            st = prove.check_sat(self.facts + [c2], self.univ, timeout=3000).status
            if st == 'unsat': d, op = False, False
            else:
                sf = prove.check_sat(self.facts + [not_(c2)], self.univ, timeout=3000).status
                d, op = True, sf != 'unsat'
        self.trace.append((d, op))
        if len(self.trace) > 400: raise Unsupported('too many branches on a path')
        if self.conds is not None: self.conds.append(c2 if d else not_(c2))
        self.assume(c2 if d else not_(c2))
        return d
    def holds(self, c, timeout=3000):
        """is c valid on this path (no forking)?"""
        c = boolify(c)
        if c is TRUE: return True
        if c is FALSE: return False
        k = self.known.get(c)
        if k is not None: return k
        c = simplify_under(c, self.known, self.facts)
        if c is TRUE: return True
        if c is FALSE: return False
        return prove.check_sat(self.facts + [not_(c)], self.univ, timeout=timeout).status == 'unsat'

def literals(facts):
    kn = {}
    for f in facts:
        kn[f] = True; kn[not_(f)] = False
    return kn
def simplify_under(t, known, facts):
    """rewrite with known literals, enumeration identities and solved integer equalities"""
    sub1 = {}
    ident = set()
    for f in facts:
        if f.op == 'eq' and f.args[0].sort == 'I':
            p = f.args[0]
            # K == ext  -> enumeration is the identity
            for m, c in items(p):
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'bind' and m[0][0].args[0] == 'fun' and m[0][0].args[1] == 'wh_K':
                    K = m[0][0]
                    exts = K.args[2][0][1]
                    if len(exts) == 1 and eq(K, exts[0]) is f: ident.add(K.args[2])
            for m, c in items(p):
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == 'var' and m[0][0] not in POSDIM and m[0][0] not in sub1:
                    v = m[0][0]
                    s = ir._solve_lin(p, v)
                    if s is not None and v not in s.fv and not any(w in sub1 for w in s.fv) and not any(v in x.fv for x in sub1.values()):
                        sub1[v] = s
                        break
    def f(x):
        if x.sort == 'B':
            k = known.get(x)
            if k is not None: return TRUE if k else FALSE
        elif ident and x.op == 'bind' and x.args[0] == 'fun' and x.args[2] in ident:
            if x.args[1] == 'wh_e': return x.args[3][1]
            if x.args[1] == 'wh_inv': return x.args[3][0]
        elif x.op == 'ind' and ident:
            pass
        return None
    def conds(x):
        return f(x)
    r = t
    if sub1: r = subst(r, sub1)
    if known or ident: r = rewrite(r, conds)
    if ident:
        # membership of an all-true enumeration
        gr = list(ident)
        def g(x):
            if x.sort == 'B' and x.op not in ('and', 'or', 'not'):
                for (grp,) in gr:
                    vs, exts, cond = grp
                    if len(vs) == 1:
                        v = match(cond, vs[0], x)
                        if v is not None and in_range(v, exts[0]): return TRUE
                        nc = not_(cond)
                        v = match(nc, vs[0], x)
                        if v is not None and in_range(v, exts[0]): return FALSE
            return None
        r = rewrite(r, g)
    return r
def match(pat, v, t):
    """value s with pat[v:=s] == t for a literal pattern (one occurrence is enough to guess)"""
    if pat.op != t.op: return None
    cand = []
    def go(p, q):
        if p is v: cand.append(q); return
        if isinstance(p, T) and isinstance(q, T):
            if p.op != q.op or v not in p.fv: return
            go(p.args, q.args)
        elif isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
            for a, b in zip(p, q): go(a, b)
    go(pat, t)
    for c in cand[:2]:
        if isinstance(c, T) and c.sort == 'I' and subst(pat, {v: c}) is t: return c
    return None

# ---------------------------------------------------------------- symbolic scalars
def lift(x):
    """python/Sc scalar -> term"""
    if isinstance(x, Sc): return x.t
    if isinstance(x, T): return x
    if isinstance(x, (bool,)): return TRUE if x else FALSE
    if isinstance(x, (int, float, Fr)): return fconst(x)
    if hasattr(x, '__sym_scalar__'): return x.__sym_scalar__()
    raise Unsupported('not a scalar: %r' % type(x))
def wrap(t):
    """term -> python int if an integer constant, else Sc"""
    if t.op == 'const' and t.sort == 'I': return int(t.args[0])
    if t.op == 'const' and t.sort == 'B': return bool(t.args[0])
    return Sc(t)
def isnum(x): return isinstance(x, (int, float, Fr, Sc)) or isinstance(x, bool)

class Sc:
    __slots__ = ('t',)
    __array_priority__ = 10
    shape = (); ndim = 0; size = 1
    def __init__(self, t): self.t = t
    def __bool__(self): return Ctx.cur.branch(self.t)
    def __hash__(self): return hash(self.t)
    def __repr__(self): return 'Sc(%s)' % show(self.t, 4)
    def __format__(self, spec): return repr(self)
    def __index__(self):
        if self.t.op == 'const' and self.t.sort == 'I': return int(self.t.args[0])
        raise Unsupported('symbolic integer used where python needs a concrete one')
    def __int__(self):
        if self.t.op == 'const': return int(self.t.args[0])
        raise Unsupported('int() of symbolic value')
    def __float__(self):
        if self.t.op == 'const': return float(self.t.args[0])
        raise Unsupported('float() of symbolic value')
    def _bin(self, o, f, rev=False):
        if not isnum(o): return NotImplemented
        a, b = self.t, lift(o)
        if rev: a, b = b, a
        return wrapx(f(a, b))
    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, True)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o): return self._bin(o, mul, True)
    def __truediv__(self, o): return self._bin(o, div)
    def __rtruediv__(self, o): return self._bin(o, div, True)
    def __floordiv__(self, o): return self._bin(o, sidiv)
    def __rfloordiv__(self, o): return self._bin(o, sidiv, True)
    def __mod__(self, o): return self._bin(o, simod)
    def __rmod__(self, o): return self._bin(o, simod, True)
    def __pow__(self, o): return self._bin(o, spow)
    def __rpow__(self, o): return self._bin(o, spow, True)
    def __neg__(self): return wrapx(neg(self.t))
    def __pos__(self): return self
    def __abs__(self): return wrapx(sabs(self.t))
    def __le__(self, o): return self._bin(o, le)
    def __lt__(self, o): return self._bin(o, lt)
    def __ge__(self, o): return self._bin(o, lambda a, b: le(b, a))
    def __gt__(self, o): return self._bin(o, lambda a, b: lt(b, a))
    def __eq__(self, o):
        if not isnum(o): return NotImplemented
        return wrapx(eq(num(self.t) if not isinstance(o, bool) else self.t, num(lift(o)) if not isinstance(o, bool) else lift(o))) if self.t.sort != 'B' else wrapx(iff(self.t, boolify(lift(o))))
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented: return r
        return wrapx(not_(lift(r)))
    def __and__(self, o): return self._bin(o, lambda a, b: and_(boolify(a), boolify(b)))
    def __rand__(self, o): return self.__and__(o)
    def __or__(self, o): return self._bin(o, lambda a, b: or_(boolify(a), boolify(b)))
    def __ror__(self, o): return self.__or__(o)
    def __invert__(self):
        if self.t.sort != 'B': raise Unsupported('~ on number')
        return wrapx(not_(self.t))
    def __getitem__(self, key):          # numpy scalar: only Ellipsis / newaxis keys
        ks = key if isinstance(key, tuple) else (key,)
        if not all(x is None or x is Ellipsis for x in ks): raise IndexError('invalid index to scalar variable')
        import symnp
        return symnp.asarray(self)[key]
    def item(self): return self
    def copy(self): return self
    def squeeze(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def astype(self, dt): return self
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        import symnp
        return getattr(symnp.asarray(self), n)
def wrapx(t):
    if t.op == 'const':
        if t.sort == 'I': return int(t.args[0])
        if t.sort == 'B': return bool(t.args[0])
    return Sc(t)
def sidiv(a, b):
    if a.sort == 'I' and b.sort == 'I': return idiv(a, b)
    return fn('floor', div(a, b))
def simod(a, b):
    if a.sort == 'I' and b.sort == 'I': return imod(a, b)
    raise Unsupported('float modulo')
def spow(a, b):
    if b.op == 'const' and Fr(b.args[0]).denominator == 1:
        k = int(b.args[0])
        if a.sort == 'I' and k >= 0: return powi(a, k)
        return powi(toreal(num(a)), k)
    if b is INF: return fn('powinf', a)
    return fn('pow', a, b)
def sabs(a):
    a = num(a)
    if a.sort == 'I': return ite(le(const(0, 'I'), a), a, neg(a))
    return fn('abs', a)
