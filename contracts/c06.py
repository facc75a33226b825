from api import contract, grid
from common import *

AUX = dict(CBO=(), CBOMemory=('y',), PSO=('y', 'v'), AdamCBO=('m', 'v'), MirrorCBO=('y',), HyperSurfaceCBO=(), DriftConstrainedCBO=(), RegCombinationCBO=(), PolarCBO=(), CBS=())
FROZEN = ([dict(cls=c, batch=b, noise=n) for c in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO') for b, n in ((None, 'anisotropic'), ('part', 'isotropic'), ('full', 'anisotropic'))] +
          [dict(cls='HyperSurfaceCBO', batch=b, noise=n) for b, n in ((None, 'isotropic'), ('part', 'anisotropic'))] +
          [dict(cls=c, batch=b, noise='isotropic') for c in ('DriftConstrainedCBO', 'RegCombinationCBO', 'PolarCBO') for b in (None, 'part')] +
          [dict(cls='CBO', batch=None, noise='covariance'), dict(cls='CBS', batch=None, noise='covariance')])

def build(k, cls, batch, noise, act='partial', **kw):
    args = dict(kw)
    if cls in ('DriftConstrainedCBO', 'RegCombinationCBO'):
        args['constraints'] = [dict(name='sphere')]
    S = Ens(k, cls, act, batch, noise=noise, havoc_energy=cls in ('CBOMemory', 'PSO'), **args)
    S.aux = {}
    for n in AUX[cls]:
        v = k.array(n, (S.M, S.N) + S.dd, nonneg=(cls == 'AdamCBO' and n == 'v'))
        setattr(S.dyn, n, k.snap(v)); S.aux[n] = v
    S.nf = k.array('num_f_eval', (S.M,), kind='i'); S.dyn.num_f_eval = k.snap(S.nf)
    return S

@contract('C06', FROZEN)
def frozen_runs(k, cls, batch, noise):
    """a step leaves positions, memory, velocities, moments and evaluation counts of inactive runs alone"""
    S = build(k, cls, batch, noise)
    dyn = S.dyn
    S.step()
    fz = lambda i, c: k.or_(S.A.has(i), c)
    k.check_shape('shape', dyn.x, (S.M, S.N) + S.dd)
    k.forall('positions', (S.M, S.N) + S.dd, lambda i, j, *l: fz(i, k.eq(k.at(dyn.x, i, j, *l), k.at(S.x, i, j, *l))))
    for n, v in S.aux.items():
        k.forall(n, (S.M, S.N) + S.dd, lambda i, j, *l: fz(i, k.eq(k.at(getattr(dyn, n), i, j, *l), k.at(v, i, j, *l))))
    k.forall('evaluation count', (S.M,), lambda i: fz(i, k.eq(k.at(dyn.num_f_eval, i), k.at(S.nf, i))))

@contract('C06', grid(act=['partial', 'full']))
def frozen_with_independent_noise(k, act):
    """drift constrained dynamic with independent noise: only active runs are perturbed, whatever was active before"""
    if k.sym: return independent_noise_loop(k, act)
    S = Ens(k, 'DriftConstrainedCBO', act, k.choice([None, 'part']), noise='isotropic', constraints=[dict(name='sphere')], sigma_indep=.5, eps_indep=k.choice([1e-3, .5, 2.]), set_alpha=True)
    dyn = S.dyn
    for _ in range(k.hist(1, 2)):            # collapse the ensemble between steps
        dyn.terminate(); dyn.step()
        m2 = k.mask('act2', S.M, 'any'); S.box[0] = m2
        dyn.x = dyn.x.mean(axis=1, keepdims=True) + .01 * (dyn.x - dyn.x.mean(axis=1, keepdims=True))
        x0 = k.snap(dyn.x); nf = k.snap(dyn.num_f_eval)
        dyn.terminate()
        if m2.any(): dyn.step()
        k.forall('positions', (S.M, S.N) + S.dd, lambda i, j, *l: bool(m2[i]) or k.eq(k.at(dyn.x, i, j, *l), k.at(x0, i, j, *l)))
        k.forall('evaluation count', (S.M,), lambda i: bool(m2[i]) or k.eq(k.at(dyn.num_f_eval, i), k.at(nf, i)))
        S.box[0] = k.mask('act3', S.M, 'some')

class IndepLoop:
    """loop contract of the independent noise loop: runs outside the active ones keep their positions"""
    def __init__(self, k, S): self.k, self.S = k, S
    def inv(self, name):
        k, S = self.k, self.S
        k.forall(name, (S.M, S.N) + S.dd, lambda i, j, *l: k.or_(S.A.has(i), k.eq(k.at(S.dyn.x, i, j, *l), k.at(S.x, i, j, *l))))
    def enter(self, loc, vals):
        k, S = self.k, self.S
        self.inv('loop invariant on entry')
        xh = k.array('x_loop', (S.M, S.N) + S.dd)
        k.assume_forall((S.M, S.N) + S.dd, lambda i, j, *l: k.or_(S.A.has(i), k.eq(k.at(xh, i, j, *l), k.at(S.x, i, j, *l))))
        S.dyn.x = xh
        return {}
    def back(self, loc): self.inv('loop invariant preserved')
def independent_noise_loop(k, act):
    S = Ens(k, 'DriftConstrainedCBO', act, None, noise='isotropic', constraints=[dict(name='sphere')], sigma_indep=k.real('sigma_indep', pos=True), eps_indep=k.real('eps_indep'))
    dyn = S.dyn
    pm = k.mask('act_before', S.M, 'some'); PA = k.active(pm)      # runs the last consensus belongs to
    S.box[0] = pm; dyn.terminate(); dyn.consensus_runs_idx = dyn.active_runs_idx
    dyn.consensus = k.array('consensus', (PA.K, 1) + S.dd)
    S.box[0] = S.act; dyn.terminate()
    k.loop('indep_noise_step', IndepLoop(k, S))
    dyn.indep_noise_step()
    k.forall('inactive runs', (S.M, S.N) + S.dd, lambda i, j, *l: k.or_(S.A.has(i), k.eq(k.at(dyn.x, i, j, *l), k.at(S.x, i, j, *l))))

@contract('C06', grid(n=[1, 2, 3], again=[False, True]))
def selection(k, n, again):
    """active runs are those no criterion reports; reasons name the criteria that fired"""
    boxes = [Box([None]) for _ in range(n)]
    M, N = k.dim('M', hi=5), k.dim('N', hi=4); dd = ddims(k)
    f = k.objective(len(dd))
    fired = [k.array('fired%d' % c, (M,), kind='b') for c in range(n)]
    snap = [k.snap(v) for v in fired]
    calls = []; verdict = Box(fired)
    def mk(c):
        def crit(dyn): calls.append(c); return verdict[c]
        return crit
    D = k.mod('cbx.dynamics')
    dyn = D.CBO(f, f_dim='3D', x=k.array('x0', (M, N) + dd), check_f_dims=False, verbosity=0, term_criteria=[mk(c) for c in range(n)])
    if again:       # after an evaluation with other verdicts
        verdict[:] = [k.array('before%d' % c, (M,), kind='b') for c in range(n)]
        dyn.terminate()
        verdict[:] = fired; del calls[:]
    n0 = len(getattr(dyn.term_reason, 'over', []))
    r = dyn.terminate()
    any_ = lambda i: k.or_(*[k.at(s, i) for s in snap])
    K = dyn.num_active_runs
    k.check_shape('active runs', dyn.active_runs_idx, (K,))
    k.forall('active', (K,), lambda p: k.and_(k.le(0, k.at(dyn.active_runs_idx, p)), k.lt(k.at(dyn.active_runs_idx, p), M), lambda: 1 == 1) if False else
             k.not_(any_(k.at(dyn.active_runs_idx, p))))
    k.forall('complete', (M,), lambda i: k.iff(k.not_(any_(i)), k.occurs(K, lambda p: k.at(dyn.active_runs_idx, p), i)))
    k.forall('sorted', (K, K), lambda p, q: k.implies(k.lt(p, q), lambda: k.lt(k.at(dyn.active_runs_idx, p), k.at(dyn.active_runs_idx, q))))
    k.check('verdict', k.iff(r, k.eq(K, 0)))
    k.check('each criterion is asked once', sorted(calls) == list(range(n)))
    if not k.sym:
        for i in range(int(M)):
            w = [c for c in range(n) if snap[c][i]]
            k.check('reason', (again or dyn.term_reason[i] is None) if not w else list(dyn.term_reason[i]) == w)
    else:
        i = k.int('run'); k.assume(k.lt(i, M))
        reasons(k, dyn, snap, n, n0)

def reasons(k, dyn, snap, n, n0):
    import loader
    for t, v in getattr(dyn.term_reason, 'over', [])[n0:]:
        from core import Sc
        i = Sc(t)
        w = k.shape(v)[0]
        for c in range(n):
            k.check('reason%d' % c, k.iff(k.at(snap[c], i), k.occurs(w, lambda p: k.at(v, p), c)))

class OptLoop:
    """loop contract of optimize: the calls follow the pattern (ask, step, update the schedule)*, ask -- each step only after the verdict that a run is active.
    The pattern is followed by an automaton, so it does not matter at which point of it the loop is entered."""
    NEXT = dict(terminate=('ask', 'asked'), step=('asked', 'stepped'), sched=('stepped', 'ask'))
    def __init__(self, k): self.k, self.state, self.verdict, self.steps, self.head = k, 'ask', None, 0, None
    def event(self, e, verdict=None):
        k = self.k; pre, post = self.NEXT[e]
        k.check('%s in turn' % e, self.state == pre)
        if e == 'step':
            k.check('a step is only taken while a run is active', k.not_(self.verdict))
            self.steps += 1
        if e == 'terminate': self.verdict = verdict
        self.state = post
    def enter(self, loc, vals): self.head, self.steps = self.state, 0; return {}
    def back(self, loc):
        self.k.check('one step per iteration', self.steps == 1)
        self.k.check('the pattern continues', self.state == self.head)
    def done(self):
        self.k.check('stops only when asked', self.state == 'asked')
        self.k.check('stops only when no run is active', self.verdict)
        self.k.check('no step after the end', self.steps == 0)
@contract('C06', grid(cls=['CBO', 'CBOMemory', 'CBS'], sched=[None, 'custom']))
def optimisation_loop(k, cls, sched):
    """optimize steps while a run is active, and returns the best particles when none is"""
    M = k.dim('M', hi=4); N = k.dim('N', hi=4); dd = ddims(k)
    f = k.objective(len(dd)); D = k.mod('cbx.dynamics')
    log = []; L = OptLoop(k) if k.sym else None
    stop = k.array('stop', (M,), kind='i')
    crit = lambda dyn: dyn.it >= stop
    C = getattr(D, cls)
    class Rec(C):
        def terminate(self):
            log.append('terminate'); r = super().terminate()
            if L: L.event('terminate', r)
            return r
        def step(self):
            log.append('step')
            if L: L.event('step')
            return super().step() if not k.sym else None
    kw = dict(noise='constant') if cls != 'CBS' else {}
    dyn = Rec(f, f_dim='3D', x=k.array('x0', (M, N) + dd), check_f_dims=False, verbosity=0, term_criteria=[crit], **kw)
    Sd = k.mod('cbx.scheduler')
    class Sched(Sd.scheduler):
        def __init__(self): pass
        def update(self, dyn):
            log.append('sched')
            if L: L.event('sched')
    s = Sched() if sched == 'custom' else sched
    if k.sym:
        if sched is None: 
            k.check('nothing to do', True); return
        dyn.it = k.int('it')
        k.loop('optimize' if cls != 'CBS' else 'run', L)
        best = k.array('best', (M,) + dd); dyn.best_particle = best
        r = dyn.optimize(sched=s)
        L.done()
        k.check('returns the best particles', r is dyn.best_particle)
        k.forall('all terminated', (M,), lambda i: k.le(k.at(stop, i), dyn.it))
    else:
        r = dyn.optimize(sched=s)
        nst = int(max(stop))
        want = (['terminate', 'step'] + (['sched'] if sched else [])) * nst + ['terminate']
        k.check('steps', log == want)
        k.check('iterations', dyn.it == nst)
        k.check('returns the best particles', r is dyn.best_particle)
        k.check('nothing active', dyn.num_active_runs == 0)

@contract('C06', grid(cls=['CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO', 'RegCombinationCBO', 'DriftConstrainedCBO', 'CBS'], batch=[None, 'part']), modes='con')
def runs_stop_individually(k, cls, batch):
    """whole optimisations: a run is frozen from the iteration in which its criterion fires"""
    if cls == 'CBS': batch = None
    M = k.dim('M', hi=4); N = k.dim('N', lo=3, hi=5); d = k.dim('d', hi=2)
    f = k.objective(1); D = k.mod('cbx.dynamics')
    stop = k.array('stop', (M,), kind='i')
    hist = []
    C = getattr(D, cls)
    class Rec(C):
        def step(self):
            super().step(); hist.append((k.snap(self.x), k.snap(self.num_f_eval)))
    kw = {}
    if batch: kw['batch_args'] = dict(size=2)
    if cls != 'CBS': kw['noise'] = k.choice(['isotropic', 'anisotropic', 'constant'])
    dyn = Rec(f, f_dim='3D', x=k.array('x0', (M, N, d)), check_f_dims=False, verbosity=0, term_criteria=[lambda dn: dn.it >= stop], dt=.05, sigma=.3, **kw)
    x0, n0 = k.snap(dyn.x), k.snap(dyn.num_f_eval)
    dyn.optimize()
    k.check('steps', len(hist) == max(stop))
    for i in range(int(M)):
        s = int(stop[i])
        ref = (x0, n0) if s == 0 else hist[s - 1]
        k.check('frozen', all((h[0][i] == ref[0][i]).all() and h[1][i] == ref[1][i] for h in hist[s:]))
        k.check('reason', list(dyn.term_reason[i]) == [0])
