"""Differential test of the trusted base: the prover's library contracts and normal form against the real numpy.

python3-vt selftest.py [--seed S] [--trials N] [--only SUBSTR]

Every entry of OPS is a small numpy program over input arrays of symbolic shape.  It is executed once with the symbolic backend
(branches follow a random valuation of the shapes and elements) and once with the real numpy on that valuation; the terms of
the symbolic result are then evaluated under the valuation and must have the shape and the values numpy computed.
"""
import sys, math, random, argparse
import numpy as np
import numpy.linalg, numpy.random
import loader
import core, ir, symnp, prove, linalg, symrandom
from ir import *
from core import Ctx, Sc, wrap, lift
from symnp import Arr

from valuation import Val

class Concrete(Ctx):
    """branches follow the valuation"""
    def __init__(self, val): super().__init__(); self.val = val
    def branch(self, c):
        if self.conds is not None: return super().branch(c)         # inside the parallel loop rule
        c = boolify(c)
        if c in (TRUE, FALSE): return c is TRUE
        k = self.known.get(c)
        if k is not None: return k
        d = bool(self.val.ev(c, {}))
        self.assume(c if d else not_(c))
        return d

OPS = []
def op(spec, tol=1e-9, **k):
    """spec: inputs, e.g. 'x:MNd a:M m:M?b i:K<N'"""
    def deco(f): OPS.append((f.__name__, spec, f, dict(tol=tol, **k))); return f
    return deco

class Kit:
    """builds each input twice: symbolic array and numpy array"""
    def __init__(self, rng, ints):
        self.rng, self.ints, self.val, self.dims = rng, ints, Val(), {}
    def dim(self, c):
        if c.isdigit(): return int(c), int(c)
        if c not in self.dims:
            n = self.rng.choice([1, 2, 3, 3, 4, 5])
            v = var('D' + c, 'I'); POSDIM.add(v); ir.sign_reset()
            self.val.vars[v] = n; self.dims[c] = (Sc(v), n)
        return self.dims[c]
    def array(self, s):
        name, t = s.split(':')
        kind, extra = 'f', ''
        if '?' in t: t, extra = t.split('?')
        if '<' in t: t, extra = t[:t.index('<')], t[t.index('<'):]
        shape = [self.dim(c) for c in t]
        ns = [b for a, b in shape]
        nr = np.random.default_rng(self.rng.randrange(2**31))
        srt = 'R'
        if extra == 'b': v = nr.random(ns) < .5; srt = 'B'; kind = 'b'
        elif extra and extra[0] == '<':                      # indices below a size
            srt, kind = 'I', 'i'
            lim, n = self.dim(extra[1]); v = nr.integers(0, n, size=ns)
        elif extra == 'n': v = nr.integers(0, 4, size=ns); srt = 'I'; kind = 'i'
        elif extra == 'p': v = nr.uniform(.1, 3, size=ns)
        else:
            v = nr.integers(-2, 3, size=ns).astype(float) if self.ints else nr.normal(size=ns)
        if extra == 's':
            r = nr.random(ns); v = np.where(r < .2, np.nan, np.where(r < .35, np.inf, np.where(r < .5, -np.inf, v)))
        v = np.asarray(v)
        nm = 'in_' + name
        if extra == 'p': SIGNFACT[nm] = '+'
        elif extra == 'n' or extra[:1] == '<': SIGNFACT[nm] = '0+'
        else: SIGNFACT.pop(nm, None)
        ir.sign_reset()
        prove.APPAX.pop(nm, None); prove.APPEXT.pop(nm, None); symnp.INVERT.pop(nm, None)
        if extra[:1] == '<':
            e = symnp.dimt(lim)
            prove.APPAX[nm] = lambda t, e=e: [le(const(0, 'I'), t), lt(t, e)]
        def get(i, v):        # a guarded term is also evaluated outside the range of its indices
            try: return v[tuple(i)].item() if all(j >= 0 for j in i) else 0
            except IndexError: return 0
        self.val.fun[nm] = lambda *i, v=v: get(i, v)
        exts = tuple(symnp.dimt(a) for a, b in shape)
        if extra == 's':
            self.val.fun[nm] = lambda *i, v=v: get(i, np.where(np.isfinite(v), v, 7.))
            for suf, q in (('_isnan', np.isnan), ('_ispinf', np.isposinf), ('_isninf', np.isneginf)):
                self.val.fun[nm + suf] = lambda *i, v=v, q=q: bool(get(i, q(v)))
            body = lambda w: ite(app(nm + '_isnan', w, 'B'), NAN, ite(app(nm + '_ispinf', w, 'B'), INF, ite(app(nm + '_isninf', w, 'B'), neg(INF), app(nm, w, 'R'))))
        else: body = lambda w: app(nm, w, srt)
        return Arr.make(exts, body, kind), np.array(v, copy=True)

def compare(val, s, c, tol, where='result'):
    if isinstance(s, (tuple, list)):
        if not isinstance(c, (tuple, list)) or len(s) != len(c): return '%s: sequence of another length' % where
        for i, (a, b) in enumerate(zip(s, c)):
            r = compare(val, a, b, tol, where + '[%d]' % i)
            if r: return r
        return None
    if s is None or c is None: return None if s is c else where + ': None'
    if isinstance(s, Arr):
        sh = tuple(int(val.ev(e, {})) for e in s.exts)
        if sh != np.shape(c): return '%s: shape %s, numpy has %s' % (where, sh, np.shape(c))
        if s.kind != {'f': 'f', 'i': 'i', 'b': 'b', 'u': 'i'}[np.asarray(c).dtype.kind]: return '%s: kind %s, numpy has %s' % (where, s.kind, np.asarray(c).dtype)
        c = np.asarray(c)
        for i in np.ndindex(*sh):
            a = val.ev(num(s.at(tuple(const(j, 'I') for j in i))), {}); b = c[i]
            if not close(a, b, tol): return '%s%s: %r, numpy has %r' % (where, list(i), a, b)
        return None
    a = val.ev(num(lift(s)), {})
    if np.shape(c) != (): return '%s: scalar, numpy has shape %s' % (where, np.shape(c))
    return None if close(a, c, tol) else '%s: %r, numpy has %r' % (where, a, c)
def close(a, b, tol):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))

def run(name, spec, f, opt, seed):
    rng = random.Random('%s %d' % (name, seed))
    k = Kit(rng, opt.get('ints', seed % 2 == 1) and not opt.get('noties'))
    ins = [k.array(s) for s in spec.split()]
    val = k.val
    Ctx.cur = Concrete(val); symrandom.reset()
    sf = opt.get('symbolic', f)
    try: want = f(np, *[c for s, c in ins])
    except (IndexError, ValueError, ZeroDivisionError) as e: want = e
    for s, c in ins: s._in = True
    try:
        with np.errstate(all='ignore'): got = sf(SYM, *[s for s, c in ins])
    except Unsupported as e: return 'unsupported', str(e)
    except TypeError as e:
        if 'unexpected keyword' not in str(e): raise
        return 'unsupported', str(e)
    except (IndexError, ValueError, ZeroDivisionError) as e: got = e
    if isinstance(want, Exception) or isinstance(got, Exception):
        if isinstance(want, Exception) and isinstance(got, Exception): return 'ok', ''
        if isinstance(got, IndexError) and 'may be out of bounds' in str(got): return 'unsupported', str(got)
        return 'FAIL', 'numpy: %r, model: %r' % (want, got)
    with np.errstate(all='ignore'): r = compare(val, got, want, opt['tol'])
    if r is None:       # the inputs after the program: writes through views
        with np.errstate(all='ignore'):
            for i, (s, c) in enumerate(ins):
                r = r or compare(val, s, c, opt['tol'], 'input %d afterwards' % i)
    return ('ok', '') if r is None else ('FAIL', r + '   dims ' + str({q: n for q, (a, n) in k.dims.items()}))

import selftest_ops, selftest_loops
SYM = None
class Always(set):
    def __contains__(self, x): return True
def main():
    global SYM
    ap = argparse.ArgumentParser()
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--trials', type=int, default=12); ap.add_argument('--only', default=''); ap.add_argument('-v', action='store_true')
    ap.add_argument('--json')
    a = ap.parse_args()
    selftest_ops.register(op)
    loader.PARALLEL = Always()
    sym = loader.transformed(selftest_loops.__file__)
    for f, spec in selftest_loops.PARALLEL + selftest_loops.DEPENDENT: op(spec, symbolic=sym[f.__name__], loop=True)(f)
    real = {m: sys.modules[m] for m in list(sys.modules) if m == 'numpy' or m.startswith('numpy.')}
    loader.install(); SYM = sys.modules['numpy']
    SYM.logsumexp, SYM.softmax, SYM.as_strided = symnp.logsumexp, symnp.softmax, symnp.as_strided
    sys.modules.update(real)
    n = dict(ok=0, FAIL=0, unsupported=0); uns = {}; bad = []
    for name, spec, f, opt in OPS:
        if a.only not in name: continue
        for t in range(a.trials):
            try: st, why = run(name, spec, f, opt, a.seed * 1000 + t)
            except Exception as e:
                if a.v: raise
                st, why = 'FAIL', 'engine error %r' % e
            n[st] += 1
            if st == 'FAIL':
                bad.append((name, a.seed * 1000 + t, why)); break
            if st == 'unsupported': uns.setdefault(name, why)
    dep = {f.__name__ for f, _ in selftest_loops.DEPENDENT}
    for name, spec, f, opt in OPS:          # the loop rule has to accept the independent loops and refuse the others
        if opt.get('loop') and a.only in name and (name in dep) != (name in uns): bad.append((name, 0, 'parallel loop rule: ' + uns.get(name, 'accepted')))
    for b in bad: print('SELFTEST FAIL', *b)
    if a.v:
        for u in uns.items(): print('unsupported', *u)
    print('selftest: %d programs, %d agreeing runs, %d outside the model, %d failures' % (len(OPS), n['ok'], n['unsupported'], len(bad)))
    if a.json:
        import json; json.dump(dict(programs=len(OPS), agreeing=n['ok'], unsupported=n['unsupported'], failures=bad), open(a.json, 'w'))
    return 1 if bad else 0
if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main())
