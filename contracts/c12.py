from api import contract, grid
from common import *

ALL = ['x', 'update_norm', 'energy', 'consensus', 'drift_mean', 'drift', 'best_energy', 'alpha']
ATTR = dict(update_norm='update_diff')

def same(k, name, a, b):
    """two arrays agree in shape and in every entry"""
    sh = k.shape(b)
    k.check_shape(name + ' (shape)', a, sh)
    k.forall(name, sh, lambda *i: k.ieq(k.at(a, *i), k.at(b, *i)))

@contract('C12', grid(save=['every', 'interval', 'default'], cls=['CBXDynamic', 'CBO']) + grid(save=['every', 'interval'], cls=['MirrorCBO', 'CBOMemory', 'PSO', 'AdamCBO']))
def one_step(k, save, cls):
    """a step from an arbitrary state appends one entry per tracked quantity iff its iteration number is a multiple of the interval"""
    D = k.mod('cbx.dynamics')
    M, N = k.dim('M', hi=3), k.dim('N', hi=4); d = k.dim('d', hi=3)
    C = getattr(D, cls)
    NAMES = ALL + (['y'] if cls in ('MirrorCBO', 'CBOMemory', 'PSO') else []) + (['m'] if cls == 'AdamCBO' else [])
    st = {n: k.array(n + '_new', s) for n, s in dict(x=(M, N, d), energy=(M, N), consensus=(M, 1, d), drift=(M, N, d), y=(M, N, d), m=(M, N, d)).items() if n in NAMES}
    class Any(C):
        def inner_step(self):
            for n, v in st.items(): setattr(self, n, k.snap(v))
    ta = dict(names=list(NAMES))
    si = 1
    if save == 'interval': si = k.dim('save_int', hi=4); ta['save_int'] = si
    elif save == 'every': ta['save_int'] = 1
    X0 = k.array('x0', (M, N, d))
    dyn = Any(k.objective(1), f_dim='3D', x=k.snap(X0), verbosity=0, check_f_dims=False, track_args=ta)
    # construction: positions have their initial entry, everything else none
    k.check('tracked quantities', set(dyn.history) >= set(NAMES))
    k.check('initial entries', all(len(dyn.history[n]) == (1 if n == 'x' else 0) for n in NAMES))
    same(k, 'initial positions', dyn.history['x'][0], X0)
    k.check('no event yet', k.ieq(dyn.track_it, 0))
    # arbitrary later moment
    past = {n: k.array('past_' + n, k.shape(dyn.history['x'][0])) for n in NAMES}
    for n in NAMES:
        if n != 'x': dyn.history[n].append(k.snap(past[n]))
    it = k.int('it', 0, 9); ev = k.int('events', 0, 9)
    dyn.it = it; dyn.track_it = ev
    dyn.best_energy = k.array('best', (M,))
    dyn.terminate(); dyn.step()
    rec = bool(k.ieq(it % si, 0))
    k.check('one entry per recorded step', all(len(dyn.history[n]) == 1 + rec for n in NAMES))
    k.check('events', k.ieq(dyn.track_it, ev + (1 if rec else 0)))
    k.check('iteration', k.ieq(dyn.it, it + 1))
    val = {n: k.snap(getattr(dyn, ATTR.get(n, n))) for n in NAMES if n != 'drift_mean'}
    dm = k.build((M,), lambda i: k.div(k.Sum((N, d), lambda j, l: k.abs(k.at(st['drift'], i, j, l))), N * d))
    # later in-place modifications of the dynamic's state
    for n in NAMES:
        if n != 'drift_mean':
            A = getattr(dyn, ATTR.get(n, n)); A[...] = A * 3. + 1.
    same(k, 'past entry of x', dyn.history['x'][0], X0)
    for n in NAMES:
        if n != 'x': same(k, 'past entry of ' + n, dyn.history[n][0], past[n])
        if not rec: continue
        if n == 'drift_mean': k.forall('drift_mean', (M,), lambda i: k.eq(k.at(dyn.history[n][1], i), k.at(dm, i)))
        else: same(k, 'entry of ' + n, dyn.history[n][1], val[n])

@contract('C12', grid(n=[1, 2]))
def extra_tracks(k, n):
    """user supplied tracks are asked exactly once at construction and once per recorded step"""
    D = k.mod('cbx.dynamics'); H = k.mod('cbx.utils.history')
    M, N, d = k.dim('M', hi=3), k.dim('N', hi=4), k.dim('d', hi=3)
    log = []
    class T(H.track):
        def __init__(self, i): self.i = i
        def init_history(self, dyn): log.append(('init', self.i))
        def update(self, dyn): log.append(('update', self.i))
    ts = [T(i) for i in range(n)]
    args = dict(names=['energy'], extra_tracks=ts, save_int=2)
    dyn = D.CBXDynamic(k.objective(1), f_dim='3D', x=k.array('x0', (M, N, d)), verbosity=0, check_f_dims=False, track_args=args)
    k.check('initialised', sorted(log) == [('init', i) for i in range(n)])
    k.check('argument not modified', args['extra_tracks'] is ts and len(ts) == n)
    dyn.best_energy = k.array('best', (M,)); dyn.energy = k.array('energy', (M, N))
    for s in range(3):
        del log[:]
        dyn.terminate(); dyn.step()
        k.check('asked once per recorded step', sorted(log) == ([('update', i) for i in range(n)] if s % 2 == 0 else []))

@contract('C12', grid(cls=['CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'CBS', 'ParticleDynamic'], batch=[None, 'part']), modes='con')
def histories(k, cls, batch):
    """whole histories with resampling, schedulers and partial termination against independently taken snapshots"""
    import numpy as np
    if cls in ('CBS', 'ParticleDynamic'): batch = None
    kw = dict(constraints=[dict(name='sphere')]) if cls in ('DriftConstrainedCBO', 'RegCombinationCBO') else {}
    D = k.mod('cbx.dynamics' if cls != 'ParticleDynamic' else 'cbx.dynamics.pdyn')
    M, N, d = int(k.dim('M', hi=3)), int(k.dim('N', lo=2, hi=4)), int(k.dim('d', hi=3))
    names = ['x', 'update_norm', 'energy'] + (['consensus', 'best_energy', 'best_particle', 'num_f_eval', 'drift', 'drift_mean', 'alpha'] if cls != 'ParticleDynamic' else [])
    if cls in ('CBOMemory', 'PSO', 'MirrorCBO'): names.append('y')
    if cls in ('PSO', 'AdamCBO'): names.append('v')
    if cls == 'CBS': names = [n for n in names if n not in ('drift', 'drift_mean')]
    si = k.choice([1, 1, 2, 3])
    log = []
    C = getattr(D, cls)
    class Rec(C):
        def track(self):
            if self.it % si == 0:
                log.append({n: k.snap(getattr(self, ATTR.get(n, n))) for n in names if n != 'drift_mean'})
                if 'drift' in names: log[-1]['drift_mean'] = np.abs(self.drift).mean(axis=(-2, -1))
            super().track()
    if batch: kw['batch_args'] = dict(size=N - 1)
    x = k.array('x0', (M, N, d)); x0 = x.copy()
    stop = k.rng.integers(1, 8, M)
    if cls != 'ParticleDynamic': kw['term_criteria'] = [lambda dn: dn.it >= stop]
    dyn = Rec(k.objective(1), f_dim='3D', x=x, verbosity=0, check_f_dims=False, track_args=dict(names=list(names), save_int=si), **kw)
    if cls == 'ParticleDynamic':
        dyn.inner_step = lambda: dyn.x.__iadd__(.1)
    R = k.mod('cbx.utils.resampling')
    rs = R.resampling([lambda dn: np.where(k.rng.random(M) < .4)[0]], sigma_indep=1.)
    n = 0
    for st in range(6):
        if cls != 'ParticleDynamic' and dyn.terminate(): break
        dyn.step(); n += (st % si == 0)
        if cls != 'ParticleDynamic' and k.choice([0, 1]): rs(dyn)
        if k.choice([0, 1]): dyn.x[k.rng.integers(M)] *= 1.5
        if 'alpha' in names and k.choice([0, 1]): dyn.alpha *= 2.
    k.check('events', dyn.track_it == n == len(log))
    for q in names:
        h = dyn.history[q]; off = 1 if q == 'x' else 0
        k.check('number of entries', len(h) == n + off)
        if off: k.check('initial positions', np.array_equal(h[0], x0))
        for e in range(n): k.check('entry of ' + q, np.array_equal(np.asarray(h[e + off]), log[e][q], equal_nan=True) if q != 'drift_mean' else np.allclose(h[e], log[e][q]))

@contract('C12', [dict(cls=c, act=a, batch=b, first=f) for c in ('CBO', 'HyperSurfaceCBO', 'MirrorCBO', 'AdamCBO') for a, b in (('partial', None), ('partial', 'part'), ('full', 'full')) for f in (True, False)])
def evaluation_points(k, cls, act, batch, first):
    """when kept, the points at which the consensus evaluated the objective are the positions at that time, and later steps do not change them"""
    S = Ens(k, cls, act, batch, noise='constant', save_consensus_eval_points=True, warm=0)
    dyn = S.dyn; M, N, dd = S.M, S.N, S.dd
    if not first:
        old = k.array('old_points', (M, N) + dd); dyn.consensus_eval_points = k.snap(old)
    elif hasattr(dyn, 'consensus_eval_points'): k.assume(False)
    S.act_now(); dyn.pre_step(); x = k.snap(dyn.x); dyn.compute_consensus()
    A = dyn.x; A[...] = A * 3. + 1.
    k.check_shape('shape', dyn.consensus_eval_points, (M, N) + dd)
    k.forall('points', (M, N) + dd, lambda i, j, *l: k.eq(k.at(dyn.consensus_eval_points, i, j, *l), k.at(x, i, j, *l) if first else k.ite(k.and_(S.A.has(i), S.inbatch(i, j)), k.at(x, i, j, *l), k.at(old, i, j, *l))))
