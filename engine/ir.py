"""Hash-consed logic terms over Int/Real/Bool with an eager normal form.

Reals and Ints are Laurent polynomials over atoms with rational coefficients.  Conditionals are indicator
atoms ind(c) in {0,1}.  Binders (sums, argmin, existential, higher-order application) bind variables whose names
are determined by the height of the body, so alpha-equivalent terms are identical objects.
"""
from fractions import Fraction as Fr
import itertools, math

class EngineError(Exception): pass
class Unsupported(EngineError):
    """A construct of the code under verification is outside the engine's reach."""

_tab = {}
_cnt = itertools.count()
class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'height', 'hasbind')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __bool__(self): raise EngineError('truth value of raw term')

EMPTY = frozenset()
def _fvh(x, fv, h):
    if isinstance(x, T):
        if x.fv: fv |= x.fv
        return max(h, x.height)
    if isinstance(x, tuple):
        for y in x: h = _fvh(y, fv, h)
    return h
def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None: return t
    t = T(); t.op = op; t.args = args; t.sort = sort; t.id = next(_cnt)
    if op == 'var':
        t.fv = frozenset((t,)); t.height = 0
    elif op == 'const':
        t.fv = EMPTY; t.height = 0
    elif op == 'bind':
        kind, name, groups, extras = args
        fv = set(); h = 0
        for vs, exts, body in groups:
            g = set(body.fv) - set(vs)
            fv |= g
            h = max(h, body.height, *[int(v.args[0][1:]) for v in vs]) if vs else max(h, body.height)
            for e in exts:
                fv |= e.fv; h = max(h, e.height)
        for e in extras:
            fv |= e.fv; h = max(h, e.height)
        t.fv = frozenset(fv); t.height = h
    else:
        fv = set(); h = _fvh(args, fv, 0)
        t.fv = frozenset(fv) if fv else EMPTY; t.height = h
    _tab[key] = t
    return t

def const(v, sort=None):
    if isinstance(v, bool): return TRUE if v else FALSE
    if sort is None: sort = 'I' if isinstance(v, int) else 'R'
    return mk('const', (Fr(v),), sort)
TRUE = mk('const', (True,), 'B'); FALSE = mk('const', (False,), 'B')

_rcache = {}
def real_of_float(x):
    """Rational meant by a float literal: simplest fraction within 2e-16 relative, else its shortest decimal."""
    if x in _rcache: return _rcache[x]
    if x == int(x) and abs(x) < 1e300: r = Fr(int(x))
    else:
        r = Fr(repr(float(x)))
        s = Fr(x).limit_denominator(100000)
        if abs(s - Fr(x)) <= abs(Fr(x)) * Fr(1, 4 * 10**15): r = s
    _rcache[x] = r
    return r

def fconst(x):
    """python number -> Real/Int term"""
    if isinstance(x, bool): return const(int(x), 'I')
    if isinstance(x, int): return const(x, 'I')
    if isinstance(x, Fr): return const(x, 'R')
    x = float(x)
    if x != x: return NAN
    if x == math.inf: return INF
    if x == -math.inf: return neg(INF)
    return const(real_of_float(x), 'R')

_fresh = itertools.count()
VRANGE = {}   # index variable -> extent term (0 <= v < extent)
def var(name, sort): return mk('var', (name,), sort)
def fresh(prefix, sort, ext=None):
    v = var('%s!%d' % (prefix, next(_fresh)), sort)
    if ext is not None: VRANGE[v] = ext
    return v
def app(fname, args, sort):
    """uninterpreted function application"""
    args = tuple(args)
    return mk('app', (fname,) + args, sort)

INF = mk('var', ('INF',), 'R'); NAN = mk('var', ('NAN',), 'R'); BIG = mk('var', ('BIGFLOAT',), 'R')
PI = mk('var', ('PI',), 'R')

# ---------------------------------------------------------------- polynomials
def poly(t):
    """dict monomial -> Fraction ; monomial = tuple of (atom, exp) sorted by atom id"""
    if t.op == 'const': return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly': return dict(t.args)
    return {((t, 1),): Fr(1)}
def items(t):
    if t.op == 'const': return (((), t.args[0]),) if t.args[0] != 0 else ()
    if t.op == 'poly': return t.args
    return ((((t, 1),), Fr(1)),)
def _mkey(m): return tuple((a.id, e) for a, e in m)
def frompoly(d, sort):
    ms = [(m, c) for m, c in d.items() if c != 0]
    if not ms: return const(0, sort)
    if len(ms) == 1:
        m, c = ms[0]
        if m == (): return const(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].sort == sort: return m[0][0]
    ms.sort(key=lambda mc: _mkey(mc[0]))
    return mk('poly', tuple(ms), sort)
def _sort2(a, b): return 'R' if 'R' in (a.sort, b.sort) else 'I'
def toreal(t):
    if t.sort == 'R': return t
    if t.sort == 'B': return toreal(ind(t))
    return frompoly(poly(t), 'R')
def num(t): return ind(t) if t.sort == 'B' else t

def add(a, b):
    a, b = num(a), num(b)
    d = poly(a)
    for m, c in items(b):
        n = d.get(m, 0) + c
        if n == 0: d.pop(m, None)
        else: d[m] = n
    return frompoly(d, _sort2(a, b))
def scale(a, c):
    if c == 1: return a
    c = Fr(c)
    return frompoly({m: k * c for m, k in items(a)}, a.sort if c.denominator == 1 else 'R')
def neg(a): return scale(num(a), -1)
def sub(a, b): return add(num(a), neg(num(b)))

def monomul(m1, m2):
    """product of monomials -> (Fraction, monomial, extra_terms) where extra_terms are terms to multiply in"""
    if not m1: return m2, ()
    if not m2: return m1, ()
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    touched = []
    for a, e in m2:
        if a in d:
            d[a] += e
            touched.append(a)
        else: d[a] = e
    extra = []
    for a in touched:
        e = d[a]
        if e == 0: del d[a]; continue
        op = a.op
        if op == 'ind' and e != 1:
            d[a] = 1
        elif op == 'fn':
            nm = a.args[0]
            if nm == 'sqrt' and (e >= 2 or e <= -2):
                k = e // 2 if e > 0 else -((-e) // 2)
                r = e - 2 * k
                if r == 0: del d[a]
                else: d[a] = r
                extra.append(powi(a.args[1], k))
            elif nm == 'abs' and e >= 2 and e % 2 == 0:
                del d[a]; extra.append(powi(a.args[1], e))
            elif nm == 'paren' and e > 0:
                del d[a]; extra.append(powi(a.args[1], e))
            elif nm == 'sign' and e >= 3:
                d[a] = 1 if e % 2 else 2
    for a in [a for a in d if a.op == 'fn' and a.args[0] == 'sqrt']:
        # a*sqrt(a)^-1 = sqrt(a), a^-1*sqrt(a) = sqrt(a)^-1 for positive a
        b = a.args[1]; e = d[a]; f = d.get(b, 0)
        if f * e < 0 and sign(b) == '+':
            t = 2 * f + e
            k = t // 2 if t > 0 else -((-t) // 2)
            r = t - 2 * k
            if k: d[b] = k
            else: del d[b]
            if r: d[a] = r
            else: del d[a]
    for a in [a for a in d if a.op == 'ind' and a.args[0].op in ('le', 'eq') and a.args[0].args[0].sort == 'R']:
        # x*[x <= 0] = x*[x < 0], sqrt(x)*[x <= 0] = sqrt(x)*[x < 0], x*[x == 0] = 0
        c = a.args[0]; x = c.args[0]
        if x.op == 'poly' or x.op == 'const': continue
        if not (d.get(x, 0) > 0 or any(b.op == 'fn' and b.args[0] in ('sqrt', 'abs') and b.args[1] is x and e > 0 for b, e in d.items())): continue
        if c.op == 'eq': return (), (const(0, 'R'),)
        t = lt(x, const(0, 'R'))
        del d[a]
        if t.op == 'lt': d[mk('ind', (t,), 'I')] = 1
        else: extra.append(ind(t))
    return tuple(sorted(d.items(), key=lambda x: x[0].id)), tuple(extra)

_mulcache = {}
def mul(a, b):
    a, b = num(a), num(b)
    sort = _sort2(a, b)
    if a.op == 'const':
        r = scale(b, a.args[0]); return toreal(r) if sort == 'R' else r
    if b.op == 'const':
        r = scale(a, b.args[0]); return toreal(r) if sort == 'R' else r
    if b.id < a.id: a, b = b, a
    key = (a, b)
    r = _mulcache.get(key)
    if r is not None: return r
    d = {}
    extras = []
    ia, ib = items(a), items(b)
    if len(ia) * len(ib) > 40000: raise Unsupported('polynomial product too large')
    for m1, c1 in ia:
        for m2, c2 in ib:
            m, ex = monomul(m1, m2)
            c = c1 * c2
            if ex: extras.append((m, c, ex))
            else: d[m] = d.get(m, 0) + c
    r = frompoly(d, sort)
    for m, c, ex in extras:
        t = frompoly({m: c}, sort)
        for x in ex: t = mul(t, x)
        r = add(r, t)
    if sort == 'R': r = toreal(r)
    _mulcache[key] = r
    return r
def powi(a, k):
    a = num(a)
    if k == 0: return const(1, a.sort)
    if k < 0: return powi(inv(a), -k)
    r = a
    for _ in range(k - 1): r = mul(r, a)
    return r

def ind_atoms(t):
    out = []
    for m, c in items(t):
        for a, e in m:
            if a.op == 'ind' and a not in out: out.append(a)
    return out
def assign_ind(t, a, v):
    """polynomial t with indicator atom a set to v (0/1) at the top level"""
    d = {}
    for m, c in items(t):
        if any(x is a for x, e in m):
            if v == 0: continue
            m = tuple(p for p in m if p[0] is not a)
        d[m] = d.get(m, 0) + c
    return frompoly(d, t.sort)
def integral(t):
    """a polynomial with integer coefficients in integer atoms (a real that is an integer)"""
    def atom(a): return a.sort in 'IB' or (a.op == 'bind' and a.args[0] == 'sum' and integral(a.args[2][0][2]))
    if t.op == 'bind': return atom(t)
    return all(c.denominator == 1 and all(atom(a) and e > 0 for a, e in m) for m, c in items(t))
MAXSPLIT = 9
def splitfn(t, f):
    """f applied under case distinction over the indicator atoms of t; f must return a numeric term"""
    ats = ind_atoms(t)
    if not ats: return f(t)
    if len(ats) > MAXSPLIT: raise Unsupported('too many conditionals')
    a = ats[0]
    p1 = assign_ind(t, a, 1); p0 = assign_ind(t, a, 0)
    r1 = splitfn(p1, f); r0 = splitfn(p0, f)
    if r1 is r0: return r1
    return add(r0, mul(a, sub(r1, r0)))
def splitfn_b(t, f):
    ats = ind_atoms(t)
    if not ats: return f(t)
    if len(ats) > MAXSPLIT: raise Unsupported('too many conditionals')
    a = ats[0]
    r1 = splitfn_b(assign_ind(t, a, 1), f); r0 = splitfn_b(assign_ind(t, a, 0), f)
    if r1 is r0: return r1
    c = a.args[0]
    return or_(and_(c, r1), and_(not_(c), r0))

def content(t):
    """(coef, primitive) with t = coef*primitive; primitive has leading coefficient 1"""
    it = items(t)
    c = it[0][1]
    return c, scale(t, Fr(1) / c)
def inv(a):
    a = num(a)
    def f(p):
        if p.op == 'const':
            if p.args[0] == 0: return app('divzero', (), 'R')
            return const(Fr(1) / p.args[0], 'R')
        it = items(p)
        if len(it) == 1:
            m, c = it[0]
            r = const(Fr(1) / c, 'R')
            for at, e in m:
                r = mul(r, _invatom(at, e))
            return r
        # factor common monomial out
        com = None
        for m, c in it:
            mm = dict(m)
            com = mm if com is None else {x: min(com[x], mm[x]) for x in com if x in mm}
        com = {x: e for x, e in com.items() if x.op != 'ind'}
        if com:
            cm = tuple(sorted(com.items(), key=lambda x: x[0].id))
            icm = frompoly({tuple((x, -e) for x, e in cm): Fr(1)}, 'R')
            return mul(inv(frompoly({cm: Fr(1)}, 'R')), inv(mul(p, icm)))
        c, prim = content(p)
        at = mk('fn', ('paren', toreal(prim)), 'R')
        return frompoly({((at, -1),): Fr(1) / c}, 'R')
    return toreal(splitfn(a, f))
def _invatom(at, e):
    if at.op == 'fn' and at.args[0] == 'paren' and e < 0: return powi(at.args[1], -e)
    if at.op == 'fn' and at.args[0] == 'sqrt' and e < -1: return inv(frompoly({((at, e),): Fr(1)}, 'R'))
    return frompoly({((at, -e),): Fr(1)}, 'R')
def div(a, b): return mul(toreal(num(a)), inv(num(b)))

# ---------------------------------------------------------------- functions
def fn(name, *args):
    args = tuple(toreal(num(a)) for a in args)
    if len(args) == 1:
        return toreal(splitfn(args[0], lambda p: _fn1(name, p)))
    if len(args) == 2:
        return toreal(splitfn(args[0], lambda p: splitfn(args[1], lambda q: _fn2(name, p, q))))
    raise EngineError(name)
def _trig_pi(name, c):
    """sin/cos of c*pi for the rational c where the value is rational"""
    c = c % 2
    if name == 'sin': c = (c - Fr(1, 2)) % 2          # sin(t) = cos(t - pi/2)
    if c.denominator > 3: return None
    return {Fr(0): const(1, 'R'), Fr(1): const(-1, 'R'), Fr(1, 2): const(0, 'R'), Fr(3, 2): const(0, 'R'),
            Fr(1, 3): const(Fr(1, 2), 'R'), Fr(5, 3): const(Fr(1, 2), 'R'), Fr(2, 3): const(Fr(-1, 2), 'R'), Fr(4, 3): const(Fr(-1, 2), 'R')}.get(c)
def _sqrt1(a, e):
    """sqrt(a^e) for an atom a > 0, e > 0"""
    if a.op == 'fn' and a.args[0] == 'paren': a = a.args[1]
    r = powi(a, e // 2) if e // 2 else const(1, 'R')
    return mul(r, mk('fn', ('sqrt', toreal(a)), 'R')) if e % 2 else r
def _posconst(p): return p.op == 'const' and p.args[0] > 0
def _fn1(name, p):
    it = items(p)
    if name == 'exp':
        r = const(1, 'R')
        for m, c in it:
            if m == ():
                a = mk('fn', ('exp', const(1, 'R')), 'R') if c.denominator == 1 else mk('fn', ('exp', const(Fr(1, c.denominator), 'R')), 'R')
                r = mul(r, frompoly({((a, c.numerator),): Fr(1)}, 'R')); continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'log' and c.denominator == 1:
                r = mul(r, powi(m[0][0].args[1], c.numerator)); continue
            q = frompoly({m: Fr(1, c.denominator)}, 'R')
            a = mk('fn', ('exp', q), 'R')
            r = mul(r, frompoly({((a, c.numerator),): Fr(1)}, 'R'))
        return r
    if name == 'log':
        if p.op == 'const' and p.args[0] == 1: return const(0, 'R')
        if len(it) == 1:
            m, c = it[0]
            if len(m) == 1 and m[0][1] < 0 and c == 1:
                return neg(_fn1('log', frompoly({((m[0][0], -m[0][1]),): Fr(1)}, 'R'))) if not (m[0][0].op == 'fn' and m[0][0].args[0] == 'paren') \
                    else neg(_fn1('log', powi(m[0][0].args[1], -m[0][1])))
            if c > 0 and all(sign(a) == '+' for a, e in m) and (c != 1 or len(m) > 1 or (m and m[0][1] != 1)):
                r = const(0, 'R') if c == 1 else mk('fn', ('log', const(c, 'R')), 'R')
                for a, e in m: r = add(r, scale(_fn1('log', a if a.sort == 'R' else toreal(a)), e))
                return r
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'exp':
                return m[0][0].args[1]
        return mk('fn', ('log', p), 'R')
    if name == 'sqrt':
        if not it: return const(0, 'R')
        # pull out the common positive factors of a sum: sqrt(a*s) = sqrt(a)*sqrt(s) for a > 0
        if len(it) > 1:
            com = None
            for m, c in it:
                mm = dict(m)
                com = mm if com is None else {x: (min(com.get(x, 0), mm.get(x, 0)) ) for x in set(com) | set(mm)}
            com = {x: e for x, e in com.items() if e and sign(x) == '+' and not (x.op == 'fn' and x.args[0] in ('paren', 'sqrt'))}
            if com:
                cm = frompoly({tuple(sorted(com.items(), key=lambda x: x[0].id)): Fr(1)}, 'R')
                return mul(_fn1('sqrt', cm), _fn1('sqrt', toreal(mul(p, inv(cm)))))
        if len(it) == 1:
            m, c = it[0]
            if len(m) > 1 or (m and (m[0][1] < 0 or c != 1)):
                pos = [(a, e) for a, e in m if sign(a) == '+']
                if pos and (len(pos) < len(m) or len(m) > 1 or c != 1 or m[0][1] < 0):
                    out = const(1, 'R')
                    for a, e in pos:
                        b = _sqrt1(toreal(a), abs(e))
                        out = mul(out, b if e > 0 else inv(b))
                    rest = frompoly({tuple((a, e) for a, e in m if sign(a) != '+'): c}, 'R')
                    return mul(out, _fn1('sqrt', rest))
            # pull out even powers
            out = const(1, 'R'); rest = {}
            for a, e in m:
                k = e // 2 if e >= 0 else -((-e) // 2)
                r = e - 2 * k
                if k and not (a.op == 'fn' and a.args[0] == 'paren'):
                    b = a if sign(a) in ('+', '0+') else _fn1('abs', toreal(a))
                    out = mul(out, powi(b, k)) if k > 0 else mul(out, inv(powi(b, -k)))
                    if r: rest[a] = r
                else: rest[a] = e
            n, dd = c.numerator, c.denominator
            if n > 0:
                sn, sd = math.isqrt(n), math.isqrt(dd)
                if sn * sn == n and sd * sd == dd:
                    out = mul(out, const(Fr(sn, sd), 'R')); c = Fr(1)
            q = frompoly({tuple(sorted(rest.items(), key=lambda x: x[0].id)): c}, 'R')
            if q.op == 'const' and q.args[0] == 1: return out
            return mul(out, mk('fn', ('sqrt', q), 'R'))
        c, prim = content(p)
        if c > 0 and c != 1:
            n, dd = c.numerator, c.denominator
            sn, sd = math.isqrt(n), math.isqrt(dd)
            if sn * sn == n and sd * sd == dd:
                return mul(const(Fr(sn, sd), 'R'), mk('fn', ('sqrt', toreal(prim)), 'R'))
        # perfect square (a+b)^2 is not searched for
        return mk('fn', ('sqrt', p), 'R')
    if name == 'abs':
        if not it: return const(0, 'R')
        s = sign(p)
        if s in ('+', '0+'): return p
        if len(it) == 1:
            m, c = it[0]
            r = const(abs(c), 'R')
            for a, e in m:
                if sign(a) in ('+', '0+') or e % 2 == 0: r = mul(r, frompoly({((a, e),): Fr(1)}, 'R'))
                else: r = mul(r, frompoly({((mk('fn', ('abs', toreal(a)), 'R'), e),): Fr(1)}, 'R'))
            return r
        c, prim = content(p)
        return scale(mk('fn', ('abs', toreal(prim)), 'R'), abs(c))
    if name == 'sign':
        if not it: return const(0, 'R')
        s = sign(p)
        if s == '+': return const(1, 'R')
        c, prim = content(p)
        if sign(prim) == '+': return const(1 if c > 0 else -1, 'R')
        return scale(mk('fn', ('sign', toreal(prim)), 'R'), 1 if c > 0 else -1)
    if name in ('sin', 'cos') and len(it) == 1 and it[0][0] == ((PI, 1),):
        v = _trig_pi(name, it[0][1])
        if v is not None: return v
    if name in ('sin', 'tanh', 'arctan', 'arcsin', 'sinh', 'cbrt'):   # odd
        if not it: return const(0, 'R')
        if it[0][1] < 0: return neg(mk('fn', (name, neg(p)), 'R'))
        return mk('fn', (name, p), 'R')
    if name in ('cos', 'cosh'):
        if not it: return const(1, 'R')
        if it[0][1] < 0: p = neg(p)
        return mk('fn', (name, p), 'R')
    if name == 'paren': return p
    if name == 'floor' and p.op == 'const': return const(math.floor(p.args[0]), 'R')
    return mk('fn', (name, p), 'R')
def _fn2(name, p, q):
    if name == 'pow':
        if q.op == 'const':
            e = q.args[0]
            if e.denominator == 1 and abs(e) <= 64:
                try: return powi(p, int(e))
                except Unsupported: pass
            if e == Fr(1, 2): return _fn1('sqrt', p)
            if e == Fr(-1, 2): return inv(_fn1('sqrt', p))
        if p.op == 'const' and p.args[0] == 1: return p
        # pow(a, k+1) = a*pow(a,k): split off constant integer part of exponent
        d = dict(items(q)); c = d.get((), Fr(0))
        if c.denominator == 1 and c != 0 and len(d) > 1:
            q2 = sub(q, const(c, 'R'))
            return mul(mk('fn', ('pow', p, q2), 'R'), powi(p, int(c)) if c > 0 else inv(powi(p, -int(c))))
        return mk('fn', ('pow', p, q), 'R')
    return mk('fn', (name, p, q), 'R')

# ---------------------------------------------------------------- integer division
def idiv(a, b):
    q, r = _divmod(a, b)
    return q
def imod(a, b):
    q, r = _divmod(a, b)
    return r
def _divmod(a, b):
    a, b = num(a), num(b)
    if b.op == 'const' and b.args[0] == 1: return a, const(0, 'I')
    if a.op == 'const' and b.op == 'const':
        x, y = int(a.args[0]), int(b.args[0])
        return const(x // y, 'I'), const(x % y, 'I')
    # split a = b*q + r with r a variable of range b (or zero)
    bi = items(b)
    if len(bi) == 1:
        bm, bc = bi[0]
        qd, rd = {}, {}
        bd = dict(bm)
        for m, c in items(a):
            md = dict(m)
            if all(md.get(x, 0) >= e for x, e in bd.items()) and (c / bc).denominator == 1 and (bm or True) and (m != () or bm == ()):
                q = {x: e - bd.get(x, 0) for x, e in md.items()}
                qd[tuple(sorted(((x, e) for x, e in q.items() if e), key=lambda x: x[0].id))] = c / bc
            else: rd[m] = c
        if bm == () :
            # constant modulus: keep only multiples that are non-constant
            pass
        r = frompoly(rd, 'I'); q = frompoly(qd, 'I')
        if in_range(r, b): return q, r
        if qd:
            q2, r2 = mk('idiv', (r, b), 'I'), mk('imod', (r, b), 'I')
            return add(q, q2), r2
    if in_range(a, b): return const(0, 'I'), a
    return mk('idiv', (a, b), 'I'), mk('imod', (a, b), 'I')
RANGE_HOOK = []
def in_range(t, ext):
    """syntactically known 0 <= t < ext"""
    if t.op == 'var':
        e = VRANGE.get(t)
        if e is ext: return True
    if t.op == 'const':
        if t.args[0] < 0: return False
        if ext.op == 'const': return t.args[0] < ext.args[0]
        if t.args[0] == 0 and ext in POSDIM: return True
    if t.op == 'bind' and t.args[0] == 'arg' and t.args[2][0][1][0] is ext: return True
    if t.op == 'imod' and t.args[1] is ext: return True
    # mixed radix  i*b + j < a*b
    for h in RANGE_HOOK:
        if h(t, ext): return True
    return False
POSDIM = set()   # extent terms known to be >= 1

# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'and': return or_(*[not_(x) for x in a.args])
    if a.op == 'or': return and_(*[not_(x) for x in a.args])
    return mk('not', (a,), 'B')
def and_(*xs):
    s = {}
    for x in xs:
        x = boolify(x)
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in (x.args if x.op == 'and' else (x,)): s[y] = 1
    for y in s:
        if not_(y) in s: return FALSE
    if not s: return TRUE
    l = sorted(s, key=lambda t: t.id)
    return l[0] if len(l) == 1 else mk('and', tuple(l), 'B')
def or_(*xs):
    s = {}
    for x in xs:
        x = boolify(x)
        if x is TRUE: return TRUE
        if x is FALSE: continue
        for y in (x.args if x.op == 'or' else (x,)): s[y] = 1
    for y in s:
        if not_(y) in s: return TRUE
    if not s: return FALSE
    l = sorted(s, key=lambda t: t.id)
    return l[0] if len(l) == 1 else mk('or', tuple(l), 'B')
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    return and_(implies(a, b), implies(b, a))
def boolify(t):
    if t.sort == 'B': return t
    return not_(eq(t, const(0, t.sort)))
def ind(c):
    if c is TRUE: return const(1, 'I')
    if c is FALSE: return const(0, 'I')
    if c.op == 'not': return sub(const(1, 'I'), ind(c.args[0]))
    if c.op == 'and':
        r = const(1, 'I')
        for x in c.args: r = mul(r, ind(x))
        return r
    if c.op == 'or':
        r = const(1, 'I')
        for x in c.args: r = mul(r, ind(not_(x)))
        return sub(const(1, 'I'), r)
    return mk('ind', (c,), 'I')
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B' and b.sort == 'B': return or_(and_(c, a), and_(not_(c), b))
    a, b = num(a), num(b)
    i = ind(c)
    return add(b, mul(i, sub(a, b))) if c.op != 'not' else add(a, mul(ind(c.args[0]), sub(b, a)))

DOM = (INF, BIG)
def _dominated(p):
    """sign (+1/-1) of p if an infinite/huge atom dominates, None otherwise; 'nan' if NAN occurs"""
    s = None
    for m, c in items(p):
        for a, e in m:
            if a is NAN: return 'nan'
    for D in DOM:
        tot = None
        for m, c in items(p):
            for a, e in m:
                if a is D:
                    rest = tuple(x for x in m if x[0] is not D)
                    sg = 1 if c > 0 else -1
                    for x, k in rest:
                        if sign(x) != '+': return None
                    if e < 0: continue
                    if tot is not None and tot != sg: return None
                    tot = sg
        if tot is not None: return tot
    return None
def le(a, b):
    """a <= b"""
    a, b = num(a), num(b)
    return splitfn_b(sub(a, b), _le0)
def _le0(p):
    if p.op == 'const': return TRUE if p.args[0] <= 0 else FALSE
    d = _dominated(p)
    if d == 'nan': return FALSE
    if d is not None: return TRUE if d < 0 else FALSE
    s = sign(p)
    if s == '+': return FALSE
    s2 = sign(neg(p))
    if s2 in ('+', '0+'): return TRUE
    c = abs(items(p)[0][1])
    if p.sort == 'I':
        # divide by gcd of non-constant coefficients
        g = 0
        for m, k in items(p):
            if m != (): g = math.gcd(g, int(k))
        if g > 1:
            d0 = dict(items(p)); c0 = d0.pop((), Fr(0))
            d0 = {m: k / g for m, k in d0.items()}
            d0[()] = Fr(math.ceil(c0 / g))
            p = frompoly(d0, 'I')
        if items(p)[-1][1] < 0: return mk('not', (mk('le', (add(const(1, 'I'), neg(p)),), 'B'),), 'B')
        return mk('le', (p,), 'B')
    # keep the leading coefficient positive?  le(p) and le(-p) are distinct atoms; p scaled positively
    p = scale(p, Fr(1) / c)
    p = toreal(p)
    # canonical orientation: if leading coef negative, express as not(lt) = not(strict)
    return mk('le', (p,), 'B') if items(p)[0][1] > 0 else mk('not', (mk('lt', (neg(p),), 'B'),), 'B')
def lt(a, b):
    a, b = num(a), num(b)
    return splitfn_b(sub(a, b), _lt0)
def _lt0(p):
    if p.op == 'const': return TRUE if p.args[0] < 0 else FALSE
    d = _dominated(p)
    if d == 'nan': return FALSE
    if d is not None: return TRUE if d < 0 else FALSE
    if p.sort == 'I': return not_(_le0(neg(p)))
    s = sign(neg(p))
    if s == '+': return TRUE
    if sign(p) in ('+', '0+'): return FALSE
    c = abs(items(p)[0][1])
    p = toreal(scale(p, Fr(1) / c))
    return mk('lt', (p,), 'B') if items(p)[0][1] > 0 else mk('not', (mk('le', (neg(p),), 'B'),), 'B')
def eq(a, b):
    if a.sort == 'B' and b.sort == 'B': return iff(a, b)
    a, b = num(a), num(b)
    if a is b: return TRUE
    return splitfn_b(sub(a, b), _eq0)
def _eq0(p):
    if p.op == 'const': return TRUE if p.args[0] == 0 else FALSE
    d = _dominated(p)
    if d is not None: return FALSE
    if sign(p) == '+' or sign(neg(p)) == '+': return FALSE
    if p.sort == 'I':
        # distinct index ranges etc. left to the solver
        pass
    c, prim = content(p)
    if p.sort == 'I' and any(k.denominator != 1 for m, k in items(prim)): prim = p if c > 0 else neg(p)
    if p.sort == 'R': prim = toreal(prim)
    return mk('eq', (prim,), 'B')

# ---------------------------------------------------------------- sign analysis (syntactic)
SIGNFACT = {}     # atom -> '+' | '0+'  (registered by assumptions, e.g. alpha > 0)
_signc = {}
def sign(t):
    k = _signc.get(t)
    if k is None:
        k = _sign(t) or '?'
        _signc[t] = k
    return None if k == '?' else k
def sign_reset(): _signc.clear()
def _sign(t):
    if t in SIGNFACT: return SIGNFACT[t]
    if t.op == 'const':
        return '+' if t.args[0] > 0 else ('0+' if t.args[0] == 0 else None)
    if t in (INF, BIG, PI): return '+'
    if t.op == 'poly':
        res = None; anyp = False
        for m, c in t.args:
            if c < 0: return None
            s = '+'
            for a, e in m:
                sa = sign(a)
                if sa == '+': continue
                if e % 2 == 0 or sa == '0+':
                    s = '0+'
                else: return None
            if s == '+': anyp = True
        return '+' if anyp else '0+'
    if t.op == 'ind': return '0+'
    if t.op == 'var':
        if t in VRANGE: return '0+'
        if t in POSDIM: return '+'
        return None
    if t.op == 'app':
        return SIGNFACT.get(t.args[0])
    if t.op in ('imod',): return '0+'
    if t.op == 'idiv': return '0+' if sign(t.args[0]) and sign(t.args[1]) == '+' else None
    if t.op == 'fn':
        nm = t.args[0]
        if nm == 'exp': return '+'
        if nm == 'sqrt': return '+' if sign(t.args[1]) == '+' else '0+'
        if nm == 'abs': return '+' if sign(t.args[1]) == '+' or sign(neg(t.args[1])) == '+' else '0+'
        if nm == 'paren': return sign(t.args[1])
        if nm == 'cosh': return '+'
        if nm == 'pow': return '+' if sign(t.args[1]) == '+' else ('0+' if sign(t.args[1]) == '0+' else None)
        if nm in ('tanh',): return sign(t.args[1])
        return None
    if t.op == 'bind':
        kind = t.args[0]
        if kind == 'sum':
            (vs, exts, body), = t.args[2]
            s = sign(body)
            if s == '+' and all(e in POSDIM or (e.op == 'const' and e.args[0] > 0) for e in exts): return '+'
            return '0+' if s in ('+', '0+') else None
        if kind == 'arg': return '0+'
        if kind == 'fun':
            if t.args[1] in SIGNFACT: return SIGNFACT[t.args[1]]
            if t.args[1].startswith('wh'): return '0+'
    return None

# ---------------------------------------------------------------- substitution
def subst(t, mp):
    if not mp: return t
    dom = frozenset(mp)
    memo = {}
    def go(t):
        if t.fv.isdisjoint(dom): return t
        r = memo.get(t)
        if r is not None: return r
        r = go1(t)
        memo[t] = r
        return r
    def go1(t):
        op = t.op
        if op == 'var': return mp.get(t, t)
        if op == 'bind':
            kind, name, groups, extras = t.args
            ng = []
            for vs, exts, body in groups:
                exts2 = tuple(go(e) for e in exts)
                if body.fv.isdisjoint(dom):
                    nb = None
                # open with fresh variables
                fr = tuple(fresh('b', 'I', e) for e in exts2)
                m2 = dict(mp); m2.update(zip(vs, fr))
                ng.append((fr, exts2, subst(body, m2)))
            return rebuild_bind(kind, name, tuple(ng), tuple(go(e) for e in extras))
        return rebuild(op, t.args, t.sort, go)
    return go(t)
def rebuild(op, args, sort, go):
    if op == 'poly':
        r = const(0, sort)
        for m, c in args:
            p = const(c, sort)
            for a, e in m:
                b = go(a)
                if b is a: p = mul(p, frompoly({((a, e),): Fr(1)}, 'R' if e < 0 or a.sort == 'R' else a.sort))
                else: p = mul(p, powi(b, e) if e > 0 else inv(powi(b, -e)))
            r = add(r, p)
        return toreal(r) if sort == 'R' else r
    if op == 'fn':
        if args[0] == 'paren': return toreal(go(args[1]))
        return fn(args[0], *[go(a) for a in args[1:]])
    if op == 'app': return mkapp(args[0], [go(a) for a in args[1:]], sort)
    if op == 'ind': return ind(go(args[0]))
    if op == 'le': return le(go(args[0]), const(0, args[0].sort))
    if op == 'lt': return lt(go(args[0]), const(0, args[0].sort))
    if op == 'eq': return eq(go(args[0]), const(0, args[0].sort))
    if op == 'not': return not_(go(args[0]))
    if op == 'and': return and_(*[go(a) for a in args])
    if op == 'or': return or_(*[go(a) for a in args])
    if op == 'idiv': return idiv(go(args[0]), go(args[1]))
    if op == 'imod': return imod(go(args[0]), go(args[1]))
    if op in ('const', 'var'): return mk(op, args, sort)
    raise EngineError('rebuild ' + op)
APPRULES = {}   # function name -> callable(args) -> term or None
def mkapp(fname, args, sort):
    """uninterpreted application, arguments with indicators are split"""
    for i, a in enumerate(args):
        if a.sort != 'B' and ind_atoms(a):
            def f(p, i=i):
                return mkapp(fname, list(args[:i]) + [p] + list(args[i + 1:]), sort)
            return splitfn(a, f) if sort != 'B' else splitfn_b(a, f)
    r = APPRULES.get(fname)
    if r:
        x = r(args)
        if x is not None: return x
    return mk('app', (fname,) + tuple(args), sort)

# ---------------------------------------------------------------- binders
def close(vs, exts, body):
    """rename the (fresh) bound variables vs canonically"""
    h = body.height
    new = tuple(var('#%d' % (h + 1 + i), 'I') for i in range(len(vs)))
    for v, e in zip(new, exts): pass
    return new, tuple(exts), _rename(body, dict(zip(vs, new)))
_sens = {}
SENSITIVE = ('abs', 'paren', 'sin', 'cos', 'tanh', 'sign', 'sqrt', 'arctan', 'cosh', 'sinh', 'arcsin', 'cbrt')
def _sensitive(t):
    """does t contain a node whose canonical orientation depends on the order of atoms?"""
    r = _sens.get(t)
    if r is None:
        if t.op in ('le', 'lt', 'eq', 'bind', 'idiv', 'imod'): r = True
        elif t.op == 'fn' and t.args[0] in SENSITIVE: r = True
        else:
            r = False
            st = list(t.args)
            while st and not r:
                x = st.pop()
                if isinstance(x, T): r = _sensitive(x)
                elif isinstance(x, tuple): st.extend(x)
        _sens[t] = r
    return r
def _rename(body, mp):
    if _sensitive(body): return subst(body, mp)
    return subst_noopen(body, mp)
def subst_noopen(t, mp):
    """rename free variables structurally (no renormalisation except ordering); bound names are lower than targets"""
    dom = frozenset(mp)
    memo = {}
    def go(t):
        if isinstance(t, T):
            if t.fv.isdisjoint(dom): return t
            r = memo.get(t)
            if r is None:
                if t.op == 'var': r = mp.get(t, t)
                elif t.op == 'poly':
                    d = {}
                    for m, c in t.args:
                        mm = tuple(sorted(((go(a), e) for a, e in m), key=lambda x: x[0].id))
                        d[mm] = d.get(mm, 0) + c
                    r = frompoly(d, t.sort)
                elif t.op in ('and', 'or'):
                    r = mk(t.op, tuple(sorted((go(a) for a in t.args), key=lambda x: x.id)), 'B')
                else: r = mk(t.op, tuple(go(a) for a in t.args), t.sort)
                memo[t] = r
            return r
        if isinstance(t, tuple): return tuple(go(a) for a in t)
        return t
    return go(t)

def rebuild_bind(kind, name, groups, extras):
    if kind == 'sum':
        (vs, exts, body), = groups
        r = body
        for v, e in zip(vs, exts): r = mk_sum(v, e, r)
        return r
    if kind == 'arg': 
        (vs, exts, body), = groups
        return mk_argmin(vs[0], exts[0], body)
    if kind == 'any':
        (vs, exts, body), = groups
        return mk_any(vs, exts, body)
    if kind == 'fun': return mk_fun(name, groups, extras)
    raise EngineError(kind)

def open_bind(t, i=0):
    """open group i of a binder with fresh variables -> (vars, exts, body)"""
    vs, exts, body = t.args[2][i]
    fr = tuple(fresh('b', 'I', e) for e in exts)
    return fr, exts, subst(body, dict(zip(vs, fr)))

def const_ext(e): return int(e.args[0]) if e.op == 'const' else None
PRODEXT = {}   # extent term -> (outer, inner) for flattened axes
def mk_sum(v, ext, body):
    body = num(body)
    n = const_ext(ext)
    if v not in body.fv: return mul(ext, body)
    if n is not None and n <= 12:
        r = const(0, body.sort)
        for i in range(n): r = add(r, subst(body, {v: const(i, 'I')}))
        return r
    if ext in PRODEXT:
        a, b = PRODEXT[ext]
        i = fresh('b', 'I', a); j = fresh('b', 'I', b)
        nb = subst(body, {v: add(mul(i, b), j)})
        return mk_sum(i, a, mk_sum(j, b, nb))
    r = const(0, body.sort)
    for m, c in items(body):
        indep, dep = [], []
        for a, e in m: (dep if v in a.fv else indep).append((a, e))
        t = frompoly({tuple(indep): c}, body.sort if all(e > 0 for _, e in indep) else 'R')
        t = mul(t, _sum_mono(v, ext, tuple(dep)) if dep else ext)
        r = add(r, t)
    return toreal(r) if body.sort == 'R' else r
SUMRULES = []   # callable(list of (var, ext), factors) -> term or None: rewriting of a sum of a product
def _sum_mono(v, ext, dep):
    # delta elimination
    for a, e in dep:
        if a.op == 'ind' and a.args[0].op == 'eq':
            p = a.args[0].args[0]
            if p.sort == 'I':
                t = _solve_lin(p, v)
                if t is not None:
                    rest = tuple(x for x in dep if x[0] is not a)
                    b = subst(frompoly({rest: Fr(1)}, 'R'), {v: t})
                    if in_range(t, ext): return b
                    return mul(ite(and_(le(const(0, 'I'), t), lt(t, ext)), const(1, 'I'), const(0, 'I')), b)
    # merge inner sums that depend on v
    vs, exts, flat = [v], [ext], []
    merged = const(1, 'R')
    simple = True
    for a, e in dep:
        if a.op == 'bind' and a.args[0] == 'sum' and e >= 1 and e <= 3:
            for _ in range(e):
                fr, ex, b = open_bind(a)
                vs += fr; exts += ex
                merged = mul(merged, b)
            simple = False
        else:
            merged = mul(merged, frompoly({((a, e),): Fr(1)}, 'R' if e < 0 or a.sort == 'R' else a.sort))
    it = items(merged)
    if simple and len(it) == 1 and not SUMRULES:
        return _sum_atom([v], [ext], it[0][0], it[0][1])
    if len(it) != 1:
        # renormalisation produced several monomials: redo generically
        r = merged
        for w, e in list(zip(vs, exts))[::-1]: r = mk_sum(w, e, r)
        return r
    m, c = it[0]
    # connected components
    comps = []
    rest = []
    vset = set(vs)
    for a, e in m:
        dv = a.fv & vset
        if not dv: rest.append((a, e)); continue
        hit = [k for k in comps if k[0] & dv]
        new = (set(dv), [(a, e)])
        for k in hit:
            new[0].update(k[0]); new[1].extend(k[1]); comps.remove(k)
        comps.append(new)
    used = set().union(*[k[0] for k in comps]) if comps else set()
    r = frompoly({tuple(rest): c}, 'R')
    for w, e in zip(vs, exts):
        if w not in used: r = mul(r, e)
    for dv, fs in comps:
        for h in SUMRULES:
            x = h([(w, e) for w, e in zip(vs, exts) if w in dv], fs)
            if x is not None: break
        else: x = None
        if x is not None:
            r = mul(r, x); continue
        ws = [(w, e) for w, e in zip(vs, exts) if w in dv]
        r = mul(r, _sum_atom([w for w, _ in ws], [e for _, e in ws], tuple(sorted(fs, key=lambda x: x[0].id)), Fr(1)))
    return r
def _solve_lin(p, v):
    """p = 0 with p = +-v + t  ->  value of v"""
    c = None; rest = {}
    for m, k in items(p):
        if any(v is a or v in a.fv for a, e in m):
            if m == ((v, 1),) and abs(k) == 1 and c is None: c = k
            else: return None
        else: rest[m] = k
    if c is None: return None
    t = frompoly(rest, 'I')
    return scale(t, -c)
def _sum_atom(vs, exts, mono, c):
    body = frompoly({mono: Fr(1)}, 'R')
    best = None
    if len(vs) > 4: raise Unsupported('too deeply nested sums')
    for perm in itertools.permutations(range(len(vs))):
        g = close([vs[i] for i in perm], [exts[i] for i in perm], body)
        t = mk('bind', ('sum', '', (g,), ()), 'R')
        if best is None or t.id < best.id: best = t
    return scale(best, c) if c != 1 else best

def mk_argmin(v, ext, body):
    """index of the (first) minimum of body over v"""
    body = num(body)
    n = const_ext(ext)
    if n == 1: return const(0, 'I')
    # positive affine normalisation: drop summands independent of v
    d = {m: c for m, c in items(body) if any(v in a.fv for a, e in m)}
    b2 = frompoly(d, body.sort)
    if not d: return const(0, 'I')
    ats = [a for a in ind_atoms(b2) if v not in a.fv]
    if ats:
        return splitfn_only(b2, ats, lambda p: mk_argmin(v, ext, p))
    g = close([v], [ext], b2)
    return mk('bind', ('arg', '', (g,), ()), 'I')
def splitfn_only(t, ats, f):
    """case distinction over the given indicator atoms, which may occur at any depth at top-level monomials"""
    if not ats: return f(t)
    a = ats[0]
    r1 = splitfn_only(assign_ind(t, a, 1), ats[1:], f); r0 = splitfn_only(assign_ind(t, a, 0), ats[1:], f)
    if r1 is r0: return r1
    return add(r0, mul(a, sub(r1, r0)))
def mk_min(v, ext, body):
    n = const_ext(ext)
    if n is not None and n <= 6:
        vals = [subst(num(body), {v: const(i, 'I')}) for i in range(n)]
        r = vals[0]
        for x in vals[1:]: r = ite(le(r, x), r, x)
        return r
    return subst(num(body), {v: mk_argmin(v, ext, body)})
def mk_max(v, ext, body):
    n = const_ext(ext)
    if n is not None and n <= 6: return neg(mk_min(v, ext, neg(num(body))))
    return subst(num(body), {v: mk_argmin(v, ext, neg(num(body)))})
def mk_any(vs, exts, body):
    vs, exts = list(vs), list(exts)
    if body in (TRUE, FALSE): return body
    keep = [(v, e) for v, e in zip(vs, exts)]
    if len(keep) == 1:
        v, e = keep[0]
        n = const_ext(e)
        if n is not None and n <= 12:
            return or_(*[subst(body, {v: const(i, 'I')}) for i in range(n)])
        if v not in body.fv:
            return and_(body, lt(const(0, 'I'), e))
    g = close([v for v, _ in keep], [e for _, e in keep], body)
    return mk('bind', ('any', '', (g,), ()), 'B')
def mk_all(vs, exts, body): return not_(mk_any(vs, exts, not_(body)))

FUNSORT = {}    # higher-order function name -> sort
FUNRULES = {}
def mk_fun(name, groups, extras=()):
    """higher-order application: name(lambda vs. body, ...; extras)"""
    groups = tuple(groups); extras = tuple(extras)
    sort = FUNSORT.get(name, 'R')
    # split off indicators independent of the bound variables (top-level of numeric bodies)
    for gi, (vs, exts, body) in enumerate(groups):
        if body.sort != 'B':
            for a in ind_atoms(body):
                if not (a.fv & set(vs)):
                    def re(p, gi=gi):
                        g = list(groups); g[gi] = (vs, exts, p)
                        return mk_fun(name, g, extras)
                    r1 = re(assign_ind(body, a, 1)); r0 = re(assign_ind(body, a, 0))
                    if sort == 'B': return or_(and_(a.args[0], r1), and_(not_(a.args[0]), r0))
                    return r1 if r1 is r0 else add(r0, mul(a, sub(r1, r0)))
    for i, x in enumerate(extras):
        if x.sort != 'B' and ind_atoms(x):
            def f(p, i=i): return mk_fun(name, groups, extras[:i] + (p,) + extras[i + 1:])
            return splitfn(x, f) if sort != 'B' else splitfn_b(x, f)
    r = FUNRULES.get(name)
    if r:
        x = r(groups, extras)
        if x is not None: return x
    cg = tuple(close(list(vs), list(exts), body if body.sort == 'B' else toreal(num(body))) for vs, exts, body in groups)
    return mk('bind', ('fun', name, cg, extras), sort)

# enumeration of {v | cond}: e(k), count, inverse
FUNSORT.update({'wh_e': 'I', 'wh_K': 'I', 'wh_inv': 'I'})
def _wh_group(vs, exts, cond): return (tuple(vs), tuple(exts), cond)
def _single(exts): return len(exts) == 1 and exts[0].op == 'const' and exts[0].args[0] == 1
def wh_K(vs, exts, cond):
    if cond is FALSE: return const(0, 'I')
    if cond is TRUE and len(vs) == 1: return exts[0]
    if _single(exts): return ind(subst(cond, {vs[0]: const(0, 'I')}))
    return mk_fun('wh_K', (_wh_group(vs, exts, cond),), ())
def wh_e(vs, exts, cond, comp, k):
    if (cond is TRUE and len(vs) == 1) or _single(exts): return k
    return mk_fun('wh_e', (_wh_group(vs, exts, cond),), (const(comp, 'I'), k))
def wh_inv(vs, exts, cond, idx):
    if (cond is TRUE and len(vs) == 1) or _single(exts): return idx[0]
    return mk_fun('wh_inv', (_wh_group(vs, exts, cond),), tuple(idx))
def _same_group(g, t):
    cg = close(list(g[0]), list(g[1]), g[2])
    return t.args[2][0] == cg
def _rule_K(groups, extras):
    vs, exts, cond = groups[0]
    if cond is FALSE: return const(0, 'I')
    if cond is TRUE and len(vs) == 1: return exts[0]
    if _single(exts): return ind(subst(cond, {vs[0]: const(0, 'I')}))
    return None
def _rule_e(groups, extras):
    comp, k = extras
    vs, exts, cond = groups[0]
    if (cond is TRUE and len(vs) == 1) or _single(exts): return k
    if k.op == 'bind' and k.args[0] == 'fun' and k.args[1] == 'wh_inv' and _same_group(groups[0], k):
        return k.args[3][int(comp.args[0])]
    return None
def _rule_inv(groups, extras):
    x = extras[0]
    vs, exts, cond = groups[0]
    if (cond is TRUE and len(vs) == 1) or _single(exts): return x
    if x.op == 'bind' and x.args[0] == 'fun' and x.args[1] == 'wh_e' and _same_group(groups[0], x):
        k = x.args[3][1]
        for i, y in enumerate(extras):
            if not (y.op == 'bind' and y.args[0] == 'fun' and y.args[1] == 'wh_e' and _same_group(groups[0], y)
                    and y.args[3][1] is k and y.args[3][0].args[0] == i): return None
        return k
    return None
FUNRULES['wh_K'] = _rule_K
FUNRULES['wh_e'] = _rule_e
FUNRULES['wh_inv'] = _rule_inv

# ---------------------------------------------------------------- generic rewriting
def rewrite(t, f):
    """bottom-up: rebuild every sub-term; f(atom) may return a replacement or None"""
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is None:
            x = f(t)
            if x is not None: r = x
            elif t.op == 'bind':
                kind, name, groups, extras = t.args
                ng = []
                for vs, exts, body in groups:
                    exts2 = tuple(go(e) for e in exts)
                    fr = tuple(fresh('b', 'I', e) for e in exts2)
                    ng.append((fr, exts2, go(subst(body, dict(zip(vs, fr))))))
                r = rebuild_bind(kind, name, tuple(ng), tuple(go(e) for e in extras))
            else: r = rebuild(t.op, t.args, t.sort, go)
            x = f(r) if r is not t else None
            if x is not None: r = x
            memo[t] = r
        return r
    return go(t)
APPEXT = {}     # index valued function symbols -> range
def subterms(t, seen=None, under=False):
    """all bound-free-visible subterms (does not enter binder bodies)"""
    if seen is None: seen = {}
    def go(x):
        if isinstance(x, T):
            if x in seen: return
            seen[x] = 1
            if x.op == 'bind':
                for e in x.args[3]: go(e)
                for g in x.args[2]:
                    for e in g[1]: go(e)
                    deep(g[2])
            else: go(x.args)
        elif isinstance(x, tuple):
            for y in x: go(y)
    dseen = set()
    def deep(x):
        """closed index-like terms inside binder bodies"""
        if isinstance(x, T):
            if x in dseen or x in seen: return
            dseen.add(x)
            if not any(v.args[0][0] == '#' for v in x.fv):
                if (x.op == 'bind' and (x.args[0] == 'arg' or x.args[1] in ('wh_e', 'wh_inv'))) or (x.op == 'app' and x.args[0] in APPEXT): go(x); return
            deep(x.args)
        elif isinstance(x, tuple):
            for y in x: deep(y)
    go(t)
    return seen

# ---------------------------------------------------------------- printing
def show(t, depth=6):
    op = t.op
    if depth <= 0: return '...'
    s = lambda x: show(x, depth - 1)
    if op == 'const':
        v = t.args[0]
        return str(v)
    if op == 'var': return t.args[0]
    if op == 'poly':
        out = []
        for m, c in t.args[:12]:
            f = [(s(a) if e == 1 else '%s^%d' % (s(a), e)) for a, e in m]
            if c != 1 or not f: f.insert(0, str(c))
            out.append('*'.join(f))
        if len(t.args) > 12: out.append('...(%d terms)' % len(t.args))
        return '(' + ' + '.join(out) + ')'
    if op == 'fn': return '%s(%s)' % (t.args[0], ','.join(s(a) for a in t.args[1:]))
    if op == 'app': return '%s(%s)' % (t.args[0], ','.join(s(a) for a in t.args[1:])) if len(t.args) > 1 else t.args[0]
    if op == 'ind': return '[%s]' % s(t.args[0])
    if op == 'le': return '%s<=0' % s(t.args[0])
    if op == 'lt': return '%s<0' % s(t.args[0])
    if op == 'eq': return '%s==0' % s(t.args[0])
    if op == 'not': return '!(%s)' % s(t.args[0])
    if op in ('and', 'or'): return '(' + (' & ' if op == 'and' else ' | ').join(s(a) for a in t.args) + ')'
    if op == 'bind':
        kind, name, groups, extras = t.args
        g = '; '.join('%s<%s. %s' % (','.join(v.args[0] for v in vs), ','.join(s(e) for e in exts), s(b)) for vs, exts, b in groups)
        return '%s%s{%s}%s' % (kind, ':' + name if name else '', g, '(' + ','.join(s(e) for e in extras) + ')' if extras else '')
    return '%s(%s)' % (op, ','.join(s(a) for a in t.args))
