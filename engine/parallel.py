"""Rule for `for t in E: B` over a symbolic range when B stores into arrays (parallel loop rule).

Iterations are shown to be independent, and the loop is replaced by the simultaneous effect of all of them:
  pass 1  the body is executed along all its paths for an arbitrary iteration j; this finds the arrays it stores into, and for
          every cell s the only iteration j*(s) that can store there (the store conditions are solved for j, once per array);
  pass 2  the body is executed again with every cell of these arrays that does not belong to iteration j replaced by an unknown
          value.  The new contents of the cells of iteration j and the path conditions must not depend on an unknown value, on a random
          draw, or on anything else created during the iteration: then no iteration reads what another one wrote.
The contents afterwards: cell s has the value its iteration j*(s) gives it, on the path that iteration takes; cells that belong
to no iteration keep theirs.  Anything outside this pattern is reported as unsupported and leaves the contract undecided.
"""
import ir, symnp, symrandom
from ir import *
from core import Ctx, lift, Sc

class Journal:
    """effects of the contract's callbacks that must not happen inside a parallel loop"""
    n = 0
def fresh_mark(): return nr(fresh('mark', 'I', None).args[0])

def literals(c):
    if c.op == 'and':
        for x in c.args: yield from literals(x)
    else: yield c

def solve_owner(cond, vs, j, ext):
    """(c, j*): some iteration stores at vs only if c, and then it is j*"""
    last = None
    for l in literals(cond):
        if l.op != 'eq' or j not in l.fv or l.args[0].sort != 'I': continue
        p = l.args[0]                   # p == 0
        for v in vs:
            t = ir._solve_lin(p, v) if v in l.fv else None
            if t is None or v in t.fv or j not in t.fv: continue
            if any(w in t.fv for w in vs): continue
            try: return symnp.invert(t, j, ext, v)
            except Unsupported as e: last = e
    raise last or Unsupported('a store inside a loop over a symbolic range is not indexed by the iteration')

def run(it, one, objs):
    import loader
    C = Ctx.cur
    ext = num(lift(it.symlen()))
    j = fresh('it', 'I', ext)
    loader.GENERIC[j] = ext
    C.loopdepth += 1          # an exception from here on cannot be attributed to the code
    saved = (len(C.facts), len(C.univ), dict(C.known), C.trace, C.prefix, C.conds)
    serial = symnp.Store.serial
    olds = {}          # store -> contents before
    conds = {}         # store -> list of store conditions
    def note(st, cond):
        if st.nr <= serial: conds.setdefault(st, []).append(cond)
    def before(st):
        if st.nr <= serial and st not in olds: olds[st] = (st.body, st.version)
    def restore():
        for st, (b, v) in olds.items(): st.body = b; st.version = v
        del C.facts[saved[0]:]; del C.univ[saved[1]:]
        C.known = dict(saved[2])
    def passes(prepare, collect):
        todo = [[]]
        n = 0
        while todo:
            n += 1
            if n > 60: raise Unsupported('too many paths through the body of a loop over a symbolic range')
            pre = todo.pop()
            restore()
            C.trace, C.prefix, C.conds = [], pre, []
            C.assume(lt(const(0, 'I'), ext))
            prepare()
            mark = symrandom.State.n, Journal.n
            yield loader.element(it, one, j)
            if (symrandom.State.n, Journal.n) != mark: raise Unsupported('random draws or calls inside a loop over a symbolic range that stores into arrays')
            loader.unchanged(objs)
            collect(list(C.conds))
            tr = C.trace
            for i in range(len(tr) - 1, len(pre) - 1, -1):
                d, op = tr[i]
                if op: todo.append([(x, False) for x, _ in tr[:i]] + [(not d, False)])
    first = {}
    symnp._cond_hooks.append(note); symnp._pre_hooks.append(before)
    try:
        yield from passes(lambda: None, lambda c: None)
        restore()
        owners = {}
        for st, cs in conds.items():
            sol = None
            for c in cs:
                o = solve_owner(c, st.vs, j, ext)
                if sol is None: sol = o
                elif o[1] is not sol[1]: raise Unsupported('stores of one iteration inside a loop over a symbolic range at different cells')
                elif o[0] is not sol[0]: sol = (or_(sol[0], o[0]), sol[1])
            owners[st] = sol
        first = dict(olds)
        unknown = {st: fresh('other', 'I', None).args[0] for st in owners}
        def prepare():
            for st, (c, js) in owners.items():
                s = {'f': 'R', 'i': 'I', 'b': 'B'}[st.kind]
                u = app('other_%s' % unknown[st], st.vs, s)
                old = first[st][0]
                own = and_(c, eq(js, j))
                st.body = ite(own, old, u) if s != 'B' else or_(and_(own, old), and_(not_(own), u))
        results = []
        def collect(cs):
            if set(conds) != set(owners): raise Unsupported('stores inside a loop over a symbolic range differ between passes')
            results.append((and_(*cs), {st: st.body for st in owners}))
        limit = fresh_mark()
        yield from passes(prepare, collect)
        restore()
        for st, (c, js) in owners.items():
            old = first[st][0]
            new = None
            for pc, bodies in results:
                val = subst(bodies[st], {j: js}); pcs = subst(pc, {j: js})
                new = val if new is None else (ite(pcs, val, new) if st.kind != 'b' else or_(and_(pcs, val), and_(not_(pcs), new)))
            st.body = ite(c, new, old) if st.kind != 'b' else or_(and_(c, new), and_(not_(c), old))
            if st.kind == 'f': st.body = toreal(num(st.body))
            check_local(st.body, unknown.values(), limit)
            st.version += 1
            for h in symnp._write_hooks: h(st)
    finally:
        symnp._cond_hooks.remove(note); symnp._pre_hooks.remove(before)
        del C.facts[saved[0]:]; del C.univ[saved[1]:]
        C.known, C.trace, C.prefix, C.conds = saved[2:]
    C.loopdepth -= 1

def subterms(t):
    seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo.extend(x); continue
        if not isinstance(x, T) or id(x) in seen: continue
        seen.add(id(x)); yield x
        todo.append(x.args)
def nr(name): return int(name.rsplit('!', 1)[1]) if isinstance(name, str) and '!' in name and name.rsplit('!', 1)[1].isdigit() else -1
def check_local(t, unknown, limit):
    names = {'other_%s' % u for u in unknown}
    for x in subterms(t):
        if x.op == 'app' and x.args[0] in names: raise Unsupported('an iteration of a loop over a symbolic range depends on another one')
        if x.op == 'app' and nr(x.args[0]) > limit: raise Unsupported('a loop over a symbolic range stores a value chosen during the iteration')
    for v in t.fv:
        if nr(v.args[0]) > limit: raise Unsupported('a loop over a symbolic range stores a value chosen during the iteration')
