"""Rewriting rules for the results of numpy.linalg.eigh / svd / qr (assumed contracts of LAPACK, listed in the trusted base):

eigh(A): V orthonormal (V^T V = V V^T = I); for symmetric A additionally V diag(w) V^T = A.
svd(A):  U^T U = I, Vh Vh^T = I (and U U^T = I, Vh^T Vh = I where the factor is square).
"""
import ir
from ir import *
USED = set()

def _is(a, names): return a.op == 'bind' and a.args[0] == 'fun' and a.args[1] in names
def _same(a, b): return a.args[1] == b.args[1] and a.args[2] == b.args[2]
def _gfree(a, w): return all(w not in g[2].fv and all(w not in e.fv for e in g[1]) for g in a.args[2])
def _free_elsewhere(a, w, pos):
    return all(w not in x.fv for i, x in enumerate(a.args[3]) if i != pos)

def _rebuild(ws, fs, factor):
    r = factor
    for a, e in fs: r = mul(r, powi(a, e) if e != 1 else a)
    for w, e in reversed(ws): r = mk_sum(w, e, r)
    return r

def _pairs(fs, w):
    """the two factors containing w, if these are exactly two linear ones (or one squared)"""
    occ = [(a, e) for a, e in fs if w in a.fv]
    if len(occ) == 1 and occ[0][1] == 2: return occ[0][0], occ[0][0], [x for x in fs if x[0] is not occ[0][0]]
    if len(occ) == 2 and occ[0][1] == 1 and occ[1][1] == 1: return occ[0][0], occ[1][0], [x for x in fs if x[0] is not occ[0][0] and x[0] is not occ[1][0]]
    return None

def ortho(ws, fs):
    for w, ext in ws:
        pr = _pairs(fs, w)
        if pr is None: continue
        a, b, rest = pr
        if not (_is(a, ('eigvec', 'svdU', 'svdV')) and _is(b, ('eigvec', 'svdU', 'svdV')) and _same(a, b) and _gfree(a, w) and _gfree(b, w)): continue
        nm = a.args[1]; n, m = a.args[2][0][1]
        for pos in (0, 1):
            if a.args[3][pos] is w and b.args[3][pos] is w and _free_elsewhere(a, w, pos) and _free_elsewhere(b, w, pos):
                ok = nm == 'eigvec' or (nm == 'svdU' and (pos == 0 or n is m)) or (nm == 'svdV' and (pos == 1 or ext is m))
                if not ok: continue
                USED.add(nm)
                d = ite(eq(a.args[3][1 - pos], b.args[3][1 - pos]), const(1, 'I'), const(0, 'I'))
                return _rebuild([x for x in ws if x[0] is not w], rest, d)
    return None

def entry(t, i, j):
    """A_ij of the matrix an eigenpair belongs to"""
    vs, exts, body = t.args[2][0]
    return subst(body, {vs[0]: i, vs[1]: j})
def symmetric(t):
    vs, exts, body = t.args[2][0]
    p, q = fresh('b', 'I', exts[0]), fresh('b', 'I', exts[1])
    return subst(body, {vs[0]: p, vs[1]: q}) is subst(body, {vs[0]: q, vs[1]: p})

def spectral(ws, fs):
    for w, ext in ws:
        occ = [(a, e) for a, e in fs if w in a.fv]
        ev = [a for a, e in occ if _is(a, ('eigval',)) and e == 1 and a.args[3][0] is w]
        if len(ev) != 1: continue
        pr = _pairs([x for x in fs if x[0] is not ev[0]], w)
        if pr is None: continue
        a, b, rest = pr
        if not (_is(a, ('eigvec',)) and _is(b, ('eigvec',)) and a.args[2] == b.args[2] == ev[0].args[2]): continue
        if not (a.args[3][1] is w and b.args[3][1] is w and w not in a.args[3][0].fv and w not in b.args[3][0].fv and _gfree(a, w)): continue
        if not symmetric(a): continue
        USED.add('spectral')
        return _rebuild([x for x in ws if x[0] is not w], rest, entry(a, a.args[3][0], b.args[3][0]))
    return None
ir.SUMRULES += [ortho, spectral]
