"""Evaluation of terms under a valuation (differential self-test, numeric confirmation of refuted obligations)."""
import math, random, time
import numpy as np
import numpy.linalg
from ir import *
import ir

class Val:
    """a valuation: integers for the size variables, numbers for the array elements"""
    def __init__(self):
        self.vars = {NAN: math.nan, INF: math.inf, PI: math.pi, BIG: float(np.finfo(float).max)}; self.fun = {}; self.memo = {}
        self.vars[var('FINFO_EPS', 'R')] = float(np.finfo(float).eps); self.vars[var('FINFO_TINY', 'R')] = float(np.finfo(float).tiny)
    def ev(self, t, b):
        closed = not any(v in b for v in t.fv)
        if closed and t in self.memo: return self.memo[t]
        with np.errstate(all='ignore'): r = self.ev1(t, b)
        if closed: self.memo[t] = r
        return r
    def mat(self, g, b):
        vs, exts, body = g
        ns = [int(self.ev(e, b)) for e in exts]
        a = np.zeros(ns)
        for i in np.ndindex(*ns): a[i] = self.ev(body, {**b, **dict(zip(vs, i))})
        return a
    def ev1(self, t, b):
        op = t.op
        if op == 'const': return t.args[0] if t.sort == 'B' else (int(t.args[0]) if t.sort == 'I' else float(t.args[0]))
        if op == 'var': return b[t] if t in b else self.vars[t]
        if op == 'poly':
            if NAN in t.fv or INF in t.fv:          # conditions first: a special value of another case does not count
                for a in ind_atoms(t):
                    if all(v in b or v in self.vars for v in a.fv): t = assign_ind(t, a, self.ev(a, b))
                if t.op != 'poly': return self.ev(t, b)
            s = 0
            for m, c in t.args:
                f = [(self.ev(a, b), e) for a, e in sorted(m, key=lambda x: x[0].op != 'ind')] if all(a.op == 'ind' for a, e in m) else None
                if f is None:
                    if any(a.op == 'ind' and self.ev(a, b) == 0 for a, e in m): continue
                    f = [(self.ev(a, b), e) for a, e in m]
                p = float(c) if t.sort == 'R' else int(c)
                for x, e in f: p = p * (np.float64(x) ** e if t.sort == 'R' else x ** e)
                s = s + p
            return float(s) if t.sort == 'R' else int(s)
        if op == 'ind': return 1 if self.ev(t.args[0], b) else 0
        if op == 'not': return not self.ev(t.args[0], b)
        if op == 'and': return all(self.ev(a, b) for a in t.args)
        if op == 'or': return any(self.ev(a, b) for a in t.args)
        if op == 'le': return self.ev(t.args[0], b) <= 0
        if op == 'lt': return self.ev(t.args[0], b) < 0
        if op == 'eq': return self.ev(t.args[0], b) == 0
        if op == 'idiv': return self.ev(t.args[0], b) // self.ev(t.args[1], b)
        if op == 'imod': return self.ev(t.args[0], b) % self.ev(t.args[1], b)
        if op == 'app': return self.fun[t.args[0]](*[self.ev(a, b) for a in t.args[1:]])
        if op == 'fn':
            n = t.args[0]; x = [np.float64(self.ev(a, b)) for a in t.args[1:]]
            if n == 'paren': return float(x[0])
            if n == 'powinf': return float(x[0] ** np.inf)
            if n == 'pow': return float(np.power(*x))
            return float(getattr(np, n)(*x))
        if op == 'bind':
            kind, name, groups, extras = t.args
            if kind == 'sum':
                (vs, exts, body), = groups
                return sum((self.ev(body, {**b, **dict(zip(vs, i))}) for i in self.grid_b(exts, b)), 0)
            if kind == 'arg':
                (vs, exts, body), = groups
                vals = [self.ev(body, {**b, vs[0]: i}) for i in range(int(self.ev(exts[0], b)))]
                return int(np.argmin(vals))
            if kind == 'any':
                (vs, exts, body), = groups
                return any(self.ev(body, {**b, **dict(zip(vs, i))}) for i in self.grid_b(exts, b))
            if name.startswith('wh_'):
                vs, exts, cond = groups[0]
                hit = [i for i in self.grid_b(exts, b) if self.ev(cond, {**b, **dict(zip(vs, i))})]
                if name == 'wh_K': return len(hit)
                if name == 'wh_e':
                    k = self.ev(extras[1], b); return hit[k][int(extras[0].args[0])] if 0 <= k < len(hit) else 0
                key = tuple(self.ev(e, b) for e in extras); return hit.index(key) if key in hit else 0
            x = [self.ev(e, b) for e in extras]
            A = [self.mat(g, b) for g in groups]
            if name == 'solve': return float(np.linalg.solve(A[0], A[1])[x[0]])
            if name == 'eigval': return float(np.linalg.eigh(A[0])[0][x[0]])
            if name == 'eigvec': return float(np.linalg.eigh(A[0])[1][x[0], x[1]])
            if name in ('svdU', 'svdS', 'svdV'):
                r = np.linalg.svd(A[0], full_matrices=False)['USV'.index(name[3])]
                return float(r[tuple(x)])
            f = self.fun.get(name)
            if f is not None: return f(*A, *x)
            raise EngineError('selftest: no value for ' + name)
        raise EngineError('selftest: ' + op)
    def grid_b(self, exts, b):
        import itertools
        return itertools.product(*[range(int(self.ev(e, b))) for e in exts])

class Bad(Exception): pass
class Guess(Val):
    """a random valuation: every symbol gets a value when it is first needed"""
    def __init__(self, rng, deadline):
        super().__init__(); self.rng, self.deadline = rng, deadline
        self.tab = {}; self.touched = []; self.n = 0
    def draw(self, sort, key, sg=None, ext=None):
        r = self.rng
        if ext is not None:
            if ext <= 0: raise Bad('empty range')
            return r.randrange(ext)
        if sort == 'B': return r.random() < .5
        if sort == 'I': return r.choice([1, 2, 2, 3]) if sg == '+' else r.choice([0, 1, 2, 3])
        v = r.gauss(0, 1) if r.random() < .8 else r.choice([0., 1., -1., 2., 10., -10.])
        return abs(v) + (.05 if sg == '+' else 0.) if sg else v
    def sym(self, key, sort, sg=None, ext=None):
        self.touched.append(key)
        if key not in self.tab: self.tab[key] = self.draw(sort, key, sg, ext() if ext else None)
        return self.tab[key]
    def ev1(self, t, b):
        self.n += 1
        if self.n % 64 == 0 and time.time() > self.deadline: raise Bad('time')
        op = t.op
        if op == 'var' and t not in b and t not in self.vars:
            e = ir.VRANGE.get(t)
            return self.sym(t, t.sort, SIGNFACT.get(t) or ('+' if t in POSDIM else None), (lambda: int(self.ev(e, b))) if e is not None else None)
        if op == 'app' and t.args[0] not in self.fun:
            a = tuple(self.ev(x, b) for x in t.args[1:])
            e = ir.APPEXT.get(t.args[0])
            return self.sym((t.args[0], a), t.sort, SIGNFACT.get(t) or SIGNFACT.get(t.args[0]), (lambda: int(self.ev(e(t), b))) if e is not None else None)
        if op == 'bind' and t.args[0] == 'fun' and not t.args[1].startswith('wh_') and t.args[1] not in ('solve', 'eigval', 'eigvec', 'svdU', 'svdS', 'svdV') and t.args[1] not in self.fun:
            kind, name, groups, extras = t.args
            x = tuple(self.ev(e, b) for e in extras)
            A = tuple(np.round(self.mat(g, b), 7).tobytes() for g in groups)
            return self.sym((name, A, x), t.sort, SIGNFACT.get(name))
        r = super().ev1(t, b)
        if op == 'fn' and (r != r or r in (math.inf, -math.inf)): raise Bad('undefined')
        return r
    def ev(self, t, b):
        # memoised values hide the symbols they depend on: only used while searching facts is over
        return super().ev(t, b)
    def truth(self, t, pos):
        """truth of a formula, in doubt (rounding) true if pos and false otherwise"""
        op = t.op
        if op == 'not': return not self.truth(t.args[0], not pos)
        if op == 'and': return all(self.truth(a, pos) for a in t.args)
        if op == 'or': return any(self.truth(a, pos) for a in t.args)
        if op == 'rawsq':
            s, p = self.ev(t.args[0], {}), self.ev(t.args[1], {})
            return abs(s * s - p) <= 1e-7 * (1 + abs(p))
        if op in ('le', 'lt', 'eq'):
            p = t.args[0]; v = self.ev(p, {})
            if v != v: raise Bad('nan')
            if p.sort == 'I': return v == 0 if op == 'eq' else (v <= 0 if op == 'le' else v < 0)
            tol = 1e-7 * self.scale(p)
            if op == 'eq': return abs(v) <= tol if pos else v == 0
            return v <= tol if pos else v < -tol
        return bool(self.ev(t, {}))
    def scale(self, p):
        s = 1e-6
        for m, c in items(p):
            x = abs(float(c))
            for a, e in m:
                if a.op == 'ind' and not self.ev(a, {}): x = 0.; break
                x *= abs(float(self.ev(a, {}))) ** e
            s += x
        return s
def search(goal, facts, univ, appax, budget=5., trials=40, want=6, seed=0):
    """numeric search for a valuation that satisfies the facts and falsifies the goal -> (status, valuation):
    'false' (found), 'true' (the goal held for every one of the valuations found), 'none' (too few valuations of the facts found)"""
    t_end = time.time() + budget
    rng = random.Random(seed)
    import itertools
    good = 0
    apps = [s for f in list(facts) + [goal] for s in subterms(f) if s.op == 'app' and s.args[0] in appax]
    facts = [f for f in facts if f.op != 'const'] + [x for s in dict.fromkeys(apps) for x in appax[s.args[0]](s)]
    for _ in range(trials):
        if time.time() > t_end: break
        g = Guess(rng, t_end)
        try:
            ok = False
            for flip in range(60):
                g.memo.clear(); bad = None
                for f in facts:
                    g.touched = []
                    try: good_f = g.truth(f, True)
                    except Bad:
                        if time.time() > t_end: raise
                        good_f = False
                    g.memo.clear()
                    if not good_f: bad = list(g.touched); break
                if bad is None:
                    for u in univ:
                        for ix in itertools.product(*[range(int(g.ev(e, {}))) for e in u.exts]):
                            g.touched = []
                            if not g.truth(subst(u.body, {v: const(i, 'I') for v, i in zip(u.vs, ix)}), True): bad = list(g.touched)
                            g.memo.clear()
                            if bad is not None: break
                        if bad is not None: break
                if bad is None: ok = True; break
                if not bad: break
                for k in set(bad):
                    if rng.random() < .7: g.tab.pop(k, None)
            if not ok: continue
            g.memo.clear()
            if not g.truth(goal, True): return 'false', g
            good += 1
            if good >= want: return 'true', None
        except (Bad, OverflowError, ZeroDivisionError, FloatingPointError, EngineError, np.linalg.LinAlgError, IndexError): continue
        except Exception: return 'none', None
    return ('true', None) if good >= 3 else ('none', None)
def describe(g):
    out = []
    for k, v in list(g.tab.items())[:30]:
        if isinstance(k, T): out.append('%s=%.6g' % (show(k, 4), v))
        elif len(k) == 2: out.append('%s%s=%.6g' % (k[0], list(k[1]), v))
    return ', '.join(out)
