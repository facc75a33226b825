"""Obligations: translation to SMT, ground instantiation of the trusted axiom schemas, discharge by z3 (cvc5)."""
import time, z3
from fractions import Fraction as Fr
from ir import *
import ir

APPAX = {}      # function name -> callable(app term) -> list of fact terms (axioms of an assumed contract)
FUNAX = {}      # higher-order function name -> callable(bind term) -> list of facts

class Universal:
    """forall vs < exts. body ; instantiated for index terms occurring in a query"""
    def __init__(self, vs, exts, body, name=''):
        self.vs, self.exts, self.body, self.name = tuple(vs), tuple(exts), body, name
        # triggers: the smallest applications mentioning all variables directly
        c = [s for s in all_subterms(body) if s.op == 'app' and set(vs) <= s.fv and all(any(a is v for a in s.args[1:]) for v in vs)]
        c.sort(key=lambda s: len(s.args))
        self.trigs = []
        for s in c:
            if len(s.args) > len(c[0].args): break
            if all(t.args[0] != s.args[0] for t in self.trigs): self.trigs.append(s)

def all_subterms(t):
    seen = {}
    def go(x):
        if isinstance(x, T):
            if x in seen: return
            seen[x] = 1
            go(x.args)
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(t)
    return seen

def isbound(t): return any(v.args[0][0] == '#' for v in t.fv)

class Tr:
    """IR -> z3"""
    def __init__(self, ite=False):
        self.memo = {}
        self.funs = {}
        self.tmpl = {}
        self.side = []
        self.ite, self.mixed, self.monos = ite, False, {}
    def sort(self, s): return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]
    def func(self, name, argsorts, rsort):
        key = (name, tuple(argsorts), rsort)
        f = self.funs.get(key)
        if f is None:
            f = z3.Function('%s/%d' % (name, len(self.funs)), *[self.sort(a) for a in argsorts], self.sort(rsort))
            self.funs[key] = f
        return f
    def app(self, name, args, rsort):
        if not args: return z3.Const(name, self.sort(rsort))
        return self.func(name, [a.sort for a in args], rsort)(*[self.tr(a) for a in args])
    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e
    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.tr1(t)
            self.memo[t] = r
        return r
    def tr1(self, t):
        op = t.op
        if op == 'const':
            v = t.args[0]
            if t.sort == 'B': return z3.BoolVal(bool(v))
            if t.sort == 'I': return z3.IntVal(int(v))
            return z3.RealVal(str(v))
        if op == 'var': return z3.Const(t.args[0], self.sort(t.sort))
        if op == 'poly':
            if len(t.args) > 3 and any(len(m) > 1 for m, _ in t.args): self.mixed = True
            c = next((a for m, _ in t.args if len(m) > 1 for a, e in m if a.op == 'ind'), None)
            if c is not None:
                self.mixed = True
                if self.ite:        # indicator * q + r as a case distinction: no product left
                    on, off = {}, {}
                    for m, k in t.args:
                        if any(a is c for a, _ in m):
                            m2 = tuple(x for x in m if x[0] is not c)
                            on[m2] = on.get(m2, 0) + k
                        else:
                            on[m] = on.get(m, 0) + k; off[m] = off.get(m, 0) + k
                    x, y = (self.tr(frompoly({m: k for m, k in d.items() if k != 0}, t.sort)) for d in (on, off))
                    if t.sort == 'R': x, y = (z3.ToReal(z) if z.sort() == z3.IntSort() else z for z in (x, y))
                    return z3.If(self.tr(c.args[0]), x, y)
            terms = []
            for m, c in t.args:
                fs = []
                if self.ite and sum(abs(e) for _, e in m) > 1:      # products are opaque
                    x = z3.Const('mono%d' % self.monos.setdefault(m, len(self.monos)), self.sort(t.sort))
                    terms.append(x if c == 1 else (z3.RealVal(str(c)) if t.sort == 'R' else z3.IntVal(int(c))) * x)
                    continue
                for a, e in m:
                    x = self.tr(a)
                    if t.sort == 'R' and x.sort() == z3.IntSort(): x = z3.ToReal(x)
                    if e < 0:
                        x = self.inverse(a)
                        e = -e
                    fs += [x] * e
                k = z3.RealVal(str(c)) if t.sort == 'R' else z3.IntVal(int(c))
                if not fs: terms.append(k)
                else:
                    if c != 1: fs = [k] + fs
                    terms.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            return z3.Sum(*terms) if len(terms) > 1 else terms[0]
        if op == 'ind': return z3.If(self.tr(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'not': return z3.Not(self.tr(t.args[0]))
        if op == 'and': return z3.And(*[self.tr(a) for a in t.args])
        if op == 'or': return z3.Or(*[self.tr(a) for a in t.args])
        if op in ('le', 'lt', 'eq'):
            p = self.tr(t.args[0])
            return p <= 0 if op == 'le' else (p < 0 if op == 'lt' else p == 0)
        if op == 'app': return self.app('a_' + t.args[0], t.args[1:], t.sort)
        if op == 'idiv': return self.tr(t.args[0]) / self.tr(t.args[1])
        if op == 'imod': return self.tr(t.args[0]) % self.tr(t.args[1])
        if op == 'fn':
            nm = t.args[0]
            if nm == 'abs':
                p = self.real(t.args[1]); return z3.If(p >= 0, p, -p)
            if nm == 'sign':
                p = self.real(t.args[1]); return z3.If(p > 0, z3.RealVal(1), z3.If(p < 0, z3.RealVal(-1), z3.RealVal(0)))
            if nm == 'paren': return self.real(t.args[1])
            f = self.func('f_' + nm, ['R'] * (len(t.args) - 1), 'R')
            return f(*[self.real(a) for a in t.args[1:]])
        if op == 'bind':
            key, params = self.template(t)
            f = self.app_t(key, params, t.sort)
            return f
        raise EngineError('tr ' + op)
    def inverse(self, a):
        f = self.func('recip', ['R'], 'R')
        x = self.real(a)
        r = f(x)
        self.side.append(z3.Implies(x != 0, r * x == 1))
        self.side.append(z3.And(z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0)))
        return r
    def template(self, t):
        params = []
        def go(x):
            if isinstance(x, T):
                if x.op == 'const': return ('c', x.args[0], x.sort)
                if not isbound(x):
                    params.append(x)
                    return ('p', x.sort)
                if x.op == 'var': return ('v', x.args[0])
                if x.op == 'bind': return ('b', x.args[0], x.args[1], tuple((len(vs), go(e), go(b)) for vs, e, b in x.args[2]), go(x.args[3]))
                return (x.op, x.sort) + go(x.args)
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            return x
        kind, name, groups, extras = t.args
        # the binder itself is bound-free; descend explicitly
        st = []
        for vs, exts, body in groups:
            st.append((len(vs), go(exts), go(body)))
        for e in extras: params.append(e)
        return (kind, name, tuple(st), len(extras)), params
    def app_t(self, key, params, rsort):
        i = self.tmpl.setdefault(key, len(self.tmpl))
        return self.app('T%d_%s%s' % (i, key[0], key[1]), params, rsort)

def enum_size(s):
    """number of elements of the enumeration a position term belongs to"""
    vs, exts, cond = s.args[2][0]
    fr = tuple(fresh('b', 'I', e) for e in exts)
    return mk_fun('wh_K', ((fr, exts, subst(cond, dict(zip(vs, fr)))),), ())
MAXROUND = 3
def instantiate(goal_terms, universals, exts_hint=()):
    """ground instances of axiom schemas for the terms of a query -> list of fact terms"""
    facts = []
    seen = {}
    done = set()
    work = list(goal_terms)
    def emit(f, key):
        if key in done: return
        done.add(key)
        if f is TRUE: return
        facts.append(f)
        newterms.append(f)
    for rnd in range(MAXROUND):
        newterms = []
        for t in work: subterms(t, seen)
        if len(seen) > 6000: break
        terms = list(seen)
        idx = {}
        for s in terms:
            e = None
            if s.op == 'var' and s in VRANGE: e = VRANGE[s]
            elif s.op == 'bind' and s.args[0] == 'arg': e = s.args[2][0][1][0]
            elif s.op == 'bind' and s.args[0] == 'fun' and s.args[1] == 'wh_e':
                e = s.args[2][0][1][int(s.args[3][0].args[0])]
            elif s.op == 'bind' and s.args[0] == 'fun' and s.args[1] == 'wh_inv':
                e = enum_size(s)
            elif s.op == 'app' and s.args[0] in APPEXT: e = APPEXT[s.args[0]](s)
            if e is not None: idx.setdefault(e, []).append(s)
        for e in idx: idx[e].sort(key=lambda x: x.op != 'var')
        for s in terms:
            if s.op == 'bind':
                kind = s.args[0]
                if kind == 'arg':
                    (vs, exts, body), = s.args[2]
                    v, ext = vs[0], exts[0]
                    ext_pos = lt(const(0, 'I'), ext)
                    emit(implies(ext_pos, and_(le(const(0, 'I'), s), lt(s, ext))), ('argr', s))
                    bs = subst(body, {v: s})
                    for c in idx.get(ext, ())[:14]:
                        if c is s: continue
                        if ('arg', s, c) in done: continue
                        emit(implies(and_(le(const(0, 'I'), c), lt(c, ext)), le(bs, subst(body, {v: c}))), ('arg', s, c))
                elif kind == 'any':
                    (vs, exts, body), = s.args[2]
                    if ('anysk', s) not in done:
                        sk = [fresh('sk', 'I', e) for e in exts]
                        emit(implies(s, and_(subst(body, dict(zip(vs, sk))), *[and_(le(const(0, 'I'), k), lt(k, e)) for k, e in zip(sk, exts)])), ('anysk', s))
                    import itertools
                    cands = [idx.get(e, ())[:6] for e in exts]
                    for combo in itertools.islice(itertools.product(*cands), 24):
                        if ('any', s, combo) in done: continue
                        rng = and_(*[and_(le(const(0, 'I'), k), lt(k, e)) for k, e in zip(combo, exts)])
                        emit(implies(and_(rng, subst(body, dict(zip(vs, combo)))), s), ('any', s, combo))
                elif kind == 'sum':
                    sg = sign(s)
                    if sg == '+': emit(lt_raw(const(0, 'R'), s), ('sum', s))
                    elif sg == '0+': emit(ge_raw(s), ('sum', s))
                elif kind == 'fun':
                    nm = s.args[1]
                    if nm in ('wh_e', 'wh_K', 'wh_inv'):
                        vs, exts, cond = s.args[2][0]
                        g = (vs, exts, cond)
                        fr = tuple(fresh('b', 'I', e) for e in exts)
                        g2 = (fr, exts, subst(cond, dict(zip(vs, fr))))
                        K = mk_fun('wh_K', (g2,), ())
                        tot = const(1, 'I')
                        for e in exts: tot = mul(tot, e)
                        emit(and_(ge_raw(K), le(K, tot)), ('whK', K))
                        if nm == 'wh_K' and ('whS', K) not in done and any(x.op == 'bind' and x.args[0] == 'sum' for x in terms):
                            # the number of elements is the sum of the indicator (stated if that sum occurs)
                            S = ind(g2[2])
                            for v, e in zip(g2[0], g2[1]): S = mk_sum(v, e, S)
                            if all(a in seen for m, c in items(S) for a, x in m if a.op == 'bind'): emit(eq_raw(toreal(K), toreal(S)), ('whS', K))
                        if nm == 'wh_e':
                            k = s.args[3][1]
                            es = [mk_fun('wh_e', (g2,), (const(i, 'I'), k)) for i in range(len(vs))]
                            inr = and_(le(const(0, 'I'), k), lt(k, K))
                            if ('whe', es[0]) not in done:
                                cs = subst(cond, dict(zip(vs, es)))
                                emit(implies(inr, and_(cs, *[and_(le(const(0, 'I'), x), lt(x, e)) for x, e in zip(es, exts)])), ('whe', es[0]))
                                if len(vs) == 1:
                                    emit(implies(and_(inr, eq_raw(K, exts[0])), eq_raw(es[0], k)), ('whid', es[0]))
                                    # strictly increasing
                                    for s2 in terms:
                                        if s2 is not s and s2.op == 'bind' and s2.args[0] == 'fun' and s2.args[1] == 'wh_e' and s2.args[2] == s.args[2]:
                                            k2 = s2.args[3][1]
                                            inr2 = and_(le(const(0, 'I'), k2), lt(k2, K))
                                            emit(implies(and_(inr, inr2, lt(k, k2)), lt(s, s2)), ('whm', s, s2))
                                            emit(implies(and_(inr, inr2, eq(s, s2)), eq(k, k2)), ('whj', s, s2))
                        if nm == 'wh_inv':
                            ix = s.args[3]
                            cs = subst(cond, dict(zip(vs, ix)))
                            rng = and_(*[and_(le(const(0, 'I'), x), lt(x, e)) for x, e in zip(ix, exts)])
                            emit(implies(and_(cs, rng), and_(le(const(0, 'I'), s), lt(s, K))), ('whi', s))
                        if len(vs) == 1:
                            for c in idx.get(exts[0], ())[:8]:
                                rng = and_(le(const(0, 'I'), c), lt(c, exts[0]))
                                cc = subst(cond, {vs[0]: c})
                                emit(implies(and_(rng, cc), lt(const(0, 'I'), K)), ('wh0', K, c))
                                emit(implies(and_(rng, eq_raw(K, exts[0])), cc), ('whA', K, c))
                    elif nm in FUNAX:
                        for i, f in enumerate(FUNAX[nm](s)): emit(f, ('funax', s, i))
            elif s.op == 'app':
                ax = APPAX.get(s.args[0])
                if ax:
                    for i, f in enumerate(ax(s)): emit(f, ('appax', s, i))
                for u in universals:
                  for trig in u.trigs:
                    if trig.args[0] == s.args[0] and len(trig.args) == len(s.args):
                        mp = {}
                        ok = True
                        for a, b in zip(trig.args[1:], s.args[1:]):
                            if a.op == 'var' and a in u.vs:
                                if a in mp and mp[a] is not b: ok = False; break
                                mp[a] = b
                            elif a is not b: ok = False; break
                        if not ok or len(mp) != len(u.vs): continue
                        key = ('u', id(u), tuple(mp[v] for v in u.vs))
                        if key in done: continue
                        rng = and_(*[and_(le(const(0, 'I'), mp[v]), lt(mp[v], e)) for v, e in zip(u.vs, u.exts)])
                        emit(implies(rng, subst(u.body, mp)), key)
            elif s.op == 'var':
                if s in VRANGE: emit(and_(ge_raw(s), lt_raw(s, VRANGE[s])), ('vr', s))
                if s in POSDIM: emit(lt_raw(const(0, 'I'), s), ('pd', s))
                if s in SIGNFACT: emit(lt_raw(const(0, s.sort), s) if SIGNFACT[s] == '+' else ge_raw(s), ('sg', s))
                if s is PI: emit(and_(lt_raw(const(Fr(3141592653, 10**9), 'R'), s), lt_raw(s, const(Fr(3141592654, 10**9), 'R'))), 'pi')
            if s.op == 'app' and (s in SIGNFACT or s.args[0] in SIGNFACT):
                k = SIGNFACT.get(s) or SIGNFACT.get(s.args[0])
                emit(lt_raw(const(0, s.sort), s) if k == '+' else ge_raw(s), ('sg', s))
            if s in POSDIM and s.op != 'var': emit(lt_raw(const(0, 'I'), s), ('pd', s))
            if s.op == 'fn':
                nm = s.args[0]
                z = const(0, 'R'); one = const(1, 'R')
                if nm == 'exp':
                    p = s.args[1]
                    emit(lt_raw(z, s), ('exp', s))
                    emit(iff_raw(le(p, z), le_raw(s, one)), ('exp1', s)); emit(iff_raw(le(z, p), le_raw(one, s)), ('exp2', s))
                elif nm == 'sqrt':
                    p = s.args[1]
                    emit(ge_raw(s), ('sq', s))
                    if ('sq2', s) not in done:
                        emit(implies(le(z, p), eq_raw2(s, p)), ('sq2', s))
                elif nm == 'tanh':
                    emit(and_(lt_raw(const(-1, 'R'), s), lt_raw(s, one)), ('th', s))
                elif nm in ('sin', 'cos'):
                    emit(and_(le_raw(const(-1, 'R'), s), le_raw(s, one)), ('sc', s))
                elif nm == 'log':
                    p = s.args[1]
                    emit(implies(lt(z, p), iff_raw(le(one, p), le_raw(z, s))), ('lg', s))
                elif nm == 'pow':
                    if sign(s.args[1]) == '+': emit(lt_raw(z, s), ('pw', s))
        exps = [s for s in terms if s.op == 'fn' and s.args[0] == 'exp']
        for i, a in enumerate(exps[:12]):
            for b in exps[:i]:
                emit(iff_raw(le(a.args[1], b.args[1]), le_raw(a, b)), ('expm', a, b))
        if not newterms: break
        work = newterms
    return facts
# comparison atoms that bypass the syntactic sign simplification (used for axioms)
def _raw(op, p): return mk(op, (p,), 'B')
def ge_raw(s): return mk('not', (_raw('lt', s),), 'B')
def lt_raw(a, b): return _raw('lt', sub(a, b))
def le_raw(a, b): return _raw('le', sub(a, b))
def eq_raw(a, b):
    p = sub(a, b)
    return TRUE if p.op == 'const' and p.args[0] == 0 else _raw('eq', p)
def eq_raw2(s, p): return mk('rawsq', (s, p), 'B')
def iff_raw(a, b): return mk('or', (mk('and', (a, b), 'B'), mk('and', (mk('not', (a,), 'B'), mk('not', (b,), 'B')), 'B')), 'B')

_tr1 = Tr.tr1
def _tr1x(self, t):
    if t.op == 'rawsq':
        x = self.tr(t.args[0])
        return x * x == self.real(t.args[1])
    return _tr1(self, t)
Tr.tr1 = _tr1x

class Result:
    __slots__ = ('status', 'model', 'time', 'reason', 'smt')
    def __init__(self, status, model=None, time=0., reason='', smt=None):
        self.status, self.model, self.time, self.reason, self.smt = status, model, time, reason, smt

STATS = dict(queries=0, time=0.0, sat=0, unsat=0, unknown=0)
_cache = {}
LINFIRST = [True]
TIMEOUT = [8000]
def relevant(facts, goal):
    return facts
def check_sat(terms, universals, timeout=None, want_model=False, keep_smt=False, lin=False):
    """satisfiability of a conjunction of terms (with instantiated axioms): 'sat'/'unsat'/'unknown'"""
    t0 = time.time()
    terms = [t for t in terms if t is not TRUE]
    for t in terms:
        if t is FALSE: return Result('unsat', time=0.)
    key = (frozenset(terms), len(universals), bool(want_model), lin)
    if key in _cache and not keep_smt: return _cache[key]
    tr = Tr()
    inst = instantiate(terms, universals)
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT[0])
    s.set('random_seed', 1)
    n = 0
    fs = [tr.tr(t) for t in terms + inst] + tr.side
    r = z3.unknown
    if LINFIRST[0]:
        # first without nonlinear reasoning (products are opaque): only 'unsat' is used
        s0 = z3.SimpleSolver()
        s0.set('timeout', min(timeout or TIMEOUT[0], 3000)); s0.set('random_seed', 1); s0.set('arith.nl', False)
        s0.add(*fs)
        if s0.check() == z3.unsat: r = z3.unsat
        elif tr.mixed:              # products with indicators as case distinctions
            tr1 = Tr(True)
            f1 = [tr1.tr(t) for t in terms + inst] + tr1.side
            s0 = z3.SimpleSolver()
            s0.set('timeout', min(timeout or TIMEOUT[0], 3000)); s0.set('random_seed', 1); s0.set('arith.nl', False)
            s0.add(*f1)
            if s0.check() == z3.unsat: r = z3.unsat
    s.add(*fs)
    if r != z3.unsat and not lin: r = s.check()
    STATS['queries'] += 1
    if r == z3.unsat: res = Result('unsat')
    elif r == z3.sat:
        res = Result('sat')
        if want_model:
            try: res.model = model_values(s.model())
            except Exception as e: res.model = {}
    else: res = Result('unknown', reason='' if lin else s.reason_unknown())
    res.time = time.time() - t0
    STATS['time'] += res.time; STATS[res.status] += 1
    if keep_smt: res.smt = s.to_smt2()
    _cache[key] = res
    return res
def model_values(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            try:
                if z3.is_int_value(v): out[d.name()] = v.as_long()
                elif z3.is_rational_value(v): out[d.name()] = float(v.as_fraction())
                elif z3.is_algebraic_value(v): out[d.name()] = float(v.approx(10).as_fraction())
                elif z3.is_true(v) or z3.is_false(v): out[d.name()] = bool(z3.is_true(v))
            except Exception: pass
    return out

def clear_denominators(p):
    """multiply p by its parenthesised denominators and expand"""
    for _ in range(6):
        neg_atoms = {}
        for m, c in items(p):
            for a, e in m:
                if e < 0: neg_atoms[a] = min(e, neg_atoms.get(a, 0))
        par = [(a, -e) for a, e in neg_atoms.items() if a.op == 'fn' and a.args[0] == 'paren']
        if not par: return p
        a, k = par[0]
        q = const(0, 'R')
        base = a.args[1]
        for m, c in items(p):
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] is not a)
            q = add(q, mul(frompoly({rest: c}, 'R'), powi(base, k + e)))
        p = q
    return p
